import math

import numpy as np

from symnp.harness import Case
from .c24 import gram

ASSUME = ['the noise handed out by numpy.random is independent standard normal; covariances are computed from the exact linear '
          'dependence of the field on it',
          'covariance of the log-volatility: integral scales for which the periodised covariance is positive definite']


def distance(N, i, j):
    i, j = i % N, j % N
    return math.hypot(min(i, N - i), min(j, N - j))


def kernel(E, N, alpha):
    """Impulse response of the fractional integration of order alpha."""
    half = N // 2
    ks = range(-half, N - half)
    g = {(u, v): E.pw(max(math.hypot(u, v), 1.0), -alpha) for u in ks for v in ks}
    h = {}
    for a in range(N):
        for b in range(N):
            s = 0.0
            for (u, v), t in g.items():
                c = math.cos(2 * math.pi * ((u * a + v * b) % N) / N) / N ** 2
                if abs(c) > 1e-15:
                    s = s + c * t
            h[a, b] = s
    return h


def integrated(E, x, N, R, alpha):
    h = kernel(E, N, alpha)
    out = np.empty((N, N, R), dtype=object)
    for i in range(N):
        for j in range(N):
            for r in range(R):
                s = 0.0
                for u in range(N):
                    for v in range(N):
                        s = s + h[(i - u) % N, (j - v) % N] * x[u, v, r]
                out[i, j, r] = s
    return out


def compare(E, y, want, msg):
    E.check(tuple(y.shape) == tuple(want.shape), f'{msg}: shape {y.shape}')
    for i in np.ndindex(*want.shape):
        E.eq(y[i], want[i], f'{msg} at {i}', atol=1e-9)


def integration(E, N, R, alpha):
    """The fractional integration is the isotropic Fourier filter |k|^-alpha."""
    f = E.mod('simul.mrw').fract_int_2d
    a = E.real('alpha', 'real', -2, 3, special=(0.0, 1.0)) if alpha is None else alpha
    x = E.array('x', (N, N, R))
    snap = E.snapshot(x)
    y = f(x, a)
    E.unchanged(x, snap, 'field')
    compare(E, y, integrated(E, x, N, R, a), 'integrated field')


def algebra(E, N, R, a, b):
    """Orders add up, order 0 is the identity, means are kept."""
    f = E.mod('simul.mrw').fract_int_2d
    x = E.array('x', (N, N, R))
    y = f(x, a)
    compare(E, f(y, b), f(x, a + b), 'orders add up')
    compare(E, f(x, 0.0), x, 'order 0')
    for r in range(R):
        s, t = 0.0, 0.0
        for i in range(N):
            for j in range(N):
                s, t = s + x[i, j, r], t + y[i, j, r]
        E.eq(t, s, f'sum of realisation {r}', atol=1e-9)


def increments(E, draws, fn):
    """Positions of the noise of the increments among the draws: without one of them an increment is zero."""
    feed = [0.2 + 0.1 * math.sin(3 * k) for k in range(len(draws))]
    out = []
    for k in range(len(draws)):
        x = np.asarray(E.replay_noise(feed[:k] + [0.0] + feed[k + 1:], fn)[1]).ravel()
        if any(not hasattr(v, 'p') and abs(float(v)) < 1e-12 for v in x):
            out.append(k)
    if not 0 < len(out) < len(draws):
        raise RuntimeError('the noise of the increments was not identified')
    return out


def merged(n, at, noise, rest):
    """All n draws: noise at the positions at, rest elsewhere."""
    at, noise, rest = set(at), iter(noise), iter(rest)
    return [next(noise) if k in at else next(rest) for k in range(n)]


def shape_of(N, R, vec):
    return N if vec else (N, R)


def motion(E, N, R, L, H, lam=0.3, sigma=None, vec=False, omit=False):
    """The motion is the increments integrated at order H + 1; both have the announced shape."""
    M = E.mod('simul.mrw')
    s = E.real('sigma', 'pos', 0.1, 5) if sigma is None else sigma
    h = E.real('H', 'real', 0.1, 0.9) if H is None else H
    fn = lambda: M.mrw2D(shape_of(N, R, vec), h, lam, L, **({} if omit else dict(sigma=s)))
    (b, x), draws = E.new_noise(fn)
    n = N + N % 2
    E.check(tuple(x.shape) == (n, n, R) == tuple(b.shape), f'shapes {b.shape}, {x.shape}')
    compare(E, b, integrated(E, x, n, R, h + 1), 'motion')


def white(E, N, R, lam, L):
    """Without intermittency the increments are white noise of amplitude sigma."""
    M = E.mod('simul.mrw')
    s = E.real('sigma', 'pos', 0.1, 5)
    cols, base = E.linear_map(lambda: M.mrw2D((N, R), 0.6, lam, L, sigma=s)[1].reshape(N * N, R))
    gram(E, cols, base, lambda i, j: s * s if i == j else 0.0, N * N, R, 'increments')


def volatility(E, N, R, L, lam):
    """The log-volatility is Gaussian with covariance lam^2 ln max(L / (1 + d), 1)."""
    M = E.mod('simul.mrw')
    fn = lambda: M.mrw2D((N, R), 0.6, lam, L)
    _, draws = E.new_noise(fn)
    at = increments(E, draws, fn)
    n = len(draws)

    def run():
        z = np.asarray(E.np.random.randn(n - len(at))).ravel()
        x = E.replay_noise(merged(n, at, [1.0] * len(at), z), fn)[1]
        return E.arr([[E.log(x[i, j, r]) for r in range(R)] for i in range(N) for j in range(N)])
    cols, base = E.linear_map(run)

    def want(p, q):
        d = distance(N, p // N - q // N, p % N - q % N)
        return lam * lam * math.log(max(L / (1 + d), 1.0))
    gram(E, cols, base, want, N * N, R, 'log-volatility')


def product(E, N, R, L, lam):
    """Given the volatility, the increments are independent."""
    M = E.mod('simul.mrw')
    s = E.real('sigma', 'pos', 0.1, 5)
    fn = lambda: M.mrw2D((N, R), 0.3, lam, L, s)
    _, draws = E.new_noise(fn)
    at = increments(E, draws, lambda: M.mrw2D((N, R), 0.3, lam, L))
    n = len(draws)
    z = [math.sin(1.7 * k) * 1.5 for k in range(n - len(at))]
    one = E.replay_noise(merged(n, at, [1.0] * len(at), z), fn)[1].reshape(N * N, R)

    def run():
        xi = np.asarray(E.np.random.randn(len(at))).ravel()
        return E.replay_noise(merged(n, at, xi, z), fn)[1].reshape(N * N, R)
    cols, base = E.linear_map(run)
    for r in range(R):
        gram(E, [c[:, [r]] for c in cols], base[:, [r]],
             lambda i, j: one[i, r] * one[i, r] if i == j else 0.0, N * N, 1, f'increments of realisation {r}')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    add(integration, N=2, R=1, alpha=None)
    add(integration, N=4, R=1, alpha=None)
    add(integration, N=4, R=2, alpha=1.6)
    add(integration, N=6, R=1, alpha=1)
    add(integration, N=8, R=1, alpha=-0.5)
    add(algebra, N=4, R=2, a=1.5, b=0.5)
    add(algebra, N=6, R=1, a=-1, b=1)
    add(motion, N=4, R=1, L=3, H=0.6)
    add(motion, N=4, R=2, L=3, H=0.3, lam=0.5)
    add(motion, N=3, R=1, L=2, H=0.8, vec=True)
    add(motion, N=2, R=3, L=5, H=None)
    add(motion, N=6, R=1, L=4, H=0.5, lam=0.0, vec=True, omit=True, sigma=1)
    add(white, N=2, R=2, lam=0.0, L=3)
    add(white, N=4, R=1, lam=0.0, L=3)
    add(white, N=4, R=1, lam=0.4, L=1)
    add(volatility, N=2, R=2, L=6, lam=0.5)
    add(volatility, N=4, R=1, L=3, lam=0.3)
    add(volatility, N=4, R=2, L=2.5, lam=0.7)
    add(volatility, N=6, R=1, L=4, lam=0.2)
    add(product, N=2, R=2, L=4, lam=0.3)
    add(product, N=4, R=1, L=3, lam=0.6)
    if tier == 'thorough':
        add(integration, N=8, R=2, alpha=None)
        add(integration, N=12, R=1, alpha=1.3)
        add(algebra, N=10, R=1, a=1.2, b=0.7)
        add(motion, N=8, R=1, L=4, H=0.5)
        add(white, N=6, R=1, lam=0.0, L=3)
        add(volatility, N=8, R=1, L=4, lam=0.3)
        add(product, N=6, R=1, L=4, lam=0.3)
    return out
