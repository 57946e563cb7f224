"""Reference construction of the simulated processes."""
import math

import numpy as np


def zeros_like_probe(E, draws, n, fn):
    """Whether fn consumes the noise of its increments before that of its magnitude: with the first
    n draws zero and the others nonzero, the process vanishes exactly in that case."""
    feed = [0.0] * n + [0.3 + 0.1 * math.sin(3 * k) for k in range(len(draws) - n)]
    x = E.replay_noise(feed, fn)
    x = x[0] if isinstance(x, tuple) else x
    return all(not hasattr(v, 'p') and abs(float(v)) < 1e-12 for v in np.asarray(x).ravel())


def split(E, draws, n_w, n_e, fn):
    """(draws of the magnitude, draws of the increments), whichever comes first."""
    E.check(len(draws) == n_w + n_e, f'{len(draws)} random numbers were drawn instead of {n_w + n_e}')
    if n_w == n_e and len(draws) != n_w + n_e:
        return None
    if zeros_like_probe(E, draws, n_e, fn):
        return draws[n_e:], draws[:n_e]
    return draws[:n_w], draws[n_w:]


def logcov(E, N, L, lam, dt=1):
    kmax = int(round(L / dt))
    return [lam * lam * math.log(L / dt / (k + 1)) if k < kmax else 0.0 for k in range(N)]


def gauss(E, cov, N, R, z, method):
    """The Gaussian process of the given covariance driven by z (checked by C24)."""
    P = E.mod('simul.pzutils')
    f = P.gaussian_cme if method == 'cme' else P.gaussian_chol
    return f(E.arr(cov), N, R, z)


def gauss_draws(E, cov, N, R, draws, method):
    P = E.mod('simul.pzutils')
    f = P.gaussian_cme if method == 'cme' else P.gaussian_chol
    return E.replay_noise(draws, lambda: f(E.arr(cov), N, R))


def centred(E, w, N, R, shift):
    out = []
    for r in range(R):
        s = 0.0
        for i in range(N):
            s = s + w[i, r]
        out.append([w[i, r] - s / N - shift for i in range(N)])
    return out


def ndraw(N, R, method):
    return 2 * (2 * N - 2) * R if method == 'cme' else N * R


def noise(E, name, N, R, method):
    """Noise to supply: complex for the circulant embedding, real for Cholesky."""
    if method == 'cme':
        return E.array(name + 'r', (2 * N - 2, R)) + 1j * E.array(name + 'i', (2 * N - 2, R))
    return E.array(name, (N, R))
