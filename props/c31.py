import math

from symnp.harness import Case
from . import sim

ASSUME = ['L/dt is a whole number of samples in the walk cases; the magnitude covariance is the one of C25 with its shift '
          '-lambda^2 ln(L/dt)',
          'the FFT convolution is compared with the direct sum up to 1e-9 absolute rounding']


def kernel(E, lag, K0, alpha, beta, dt):
    return K0 / (E.pw(float(lag), alpha) * E.pw(dt, beta))


def past(E, e, N, r, K0, alpha, beta, dt):
    """Sum over lags 1..N of the kernel times earlier noise, for the second half of e."""
    ks = [kernel(E, l, K0, alpha, beta, dt) for l in range(1, N + 1)]
    out = []
    for k in range(N):
        s = 0.0
        for l in range(1, N + 1):
            s = s + ks[l - 1] * e[N + k - l, r]
        out.append(s)
    return out


def params(E, K0, alpha, beta, dt):
    return (E.real('K0', 'real', -2, 2) if K0 is None else K0,
            E.real('alpha', 'real', 0.2, 2) if alpha is None else alpha,
            E.real('beta', 'real', 0.2, 2) if beta is None else beta,
            E.real('dt', 'pos', 0.1, 3) if dt is None else dt)


def convolution(E, N, R, K0=None, alpha=1, beta=1, dt=1, omit=False):
    M = E.mod('simul.mrw')
    e = E.array('e', (2 * N, R))
    K0, alpha, beta, dt = params(E, K0, alpha, beta, dt)
    snap = E.snapshot(e)
    got = M.skewness_convolution(e, K0, alpha) if omit else M.skewness_convolution(e, K0, alpha, beta, dt)
    E.unchanged(e, snap, 'noise')
    E.check(got.shape == (N, R), f'shape {got.shape}')
    for r in range(R):
        want = past(E, e, N, r, K0, alpha, beta, dt)
        for k in range(N):
            E.eq(got[k, r], want[k], f'skewness term {k} of realisation {r}', atol=1e-9)


def direct(E, N, R, K0=None, alpha=1, beta=1, dt=1):
    """The slow implementation: all of the past."""
    M = E.mod('simul.mrw')
    e = E.array('e', (N, R))
    K0, alpha, beta, dt = params(E, K0, alpha, beta, dt)
    got = M.skewness_convolution_dumb(e, K0, alpha, beta, dt)
    E.check(got.shape == (N, R), f'shape {got.shape}')
    for r in range(R):
        for k in range(N):
            s = 0.0
            for i in range(k):
                s = s + kernel(E, k - i, K0, alpha, beta, dt) * e[i, r]
            E.eq(got[k, r], s, f'skewness term {k} of realisation {r}', atol=1e-9)


def walk(E, N, R, L, H=0.6, lam=None, K0=None, alpha=1, beta=1, dt=1, sigma=None, mirror=False, vec=False, omit=False):
    """The walk, from its own noise."""
    M, F = E.mod('simul.mrw'), E.mod('simul.fbm')
    lam = E.real('lam', 'pos', 0.01, 1) if lam is None else lam
    K0, alpha, beta, dt = params(E, K0, alpha, beta, dt)
    shape = N if vec else (N, R)
    kw = {}
    if not omit:
        sigma = E.real('sigma', 'pos', 0.1, 5) if sigma is None else sigma
        kw = dict(K0=K0, alpha=alpha, beta=beta, dt=dt, sigma=sigma)
    else:
        sigma = 1
    if mirror:
        kw['do_mirror'] = True
    x, draws = E.new_noise(lambda: M.skewed_mrw(shape, H, lam, L, **kw))
    if mirror:
        E.check(isinstance(x, tuple) and len(x) == 2, 'a pair of walks')
    nw, ne = 2 * (2 * N - 2) * R, 2 * (4 * N - 2) * R
    pk = dict(kw)
    pk.update(K0=0.3, alpha=1, beta=1, dt=dt if not hasattr(dt, 'p') else 1, sigma=1)
    if 'do_mirror' in pk:
        pk['do_mirror'] = False
    dw, de = sim.split(E, draws, nw, ne, lambda: M.skewed_mrw(shape, 0.6, 0.3, L, **pk))
    e = E.replay_noise(de, lambda: F.fgn((2 * N, R), H, sigma, dt))
    w = sim.gauss_draws(E, sim.logcov(E, N, L, lam, dt), N, R, dw, 'cme')
    w = sim.centred(E, w, N, R, lam * lam * math.log(L / dt))
    for m, y in enumerate(x if mirror else (x,)):
        sg = -1.0 if m else 1.0
        E.check(y.shape == ((N,) if vec else (N, R)), f'shape {y.shape}')
        for r in range(R):
            p = past(E, e, N, r, K0, alpha, beta, dt)
            s = None
            for k in range(N):
                t = sg * e[N + k, r] * E.exp(w[r][k] - sg * p[k])
                s = t if s is None else s + t
                E.eq(y[k] if vec else y[k, r], s, f'{"mirrored " if m else ""}walk, sample {k} of realisation {r}', atol=1e-9)


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    add(convolution, N=2, R=1)
    add(convolution, N=3, R=2)
    add(convolution, N=4, R=1, omit=True)
    add(convolution, N=4, R=2, alpha=0.5, beta=0.7, dt=0.25)
    add(convolution, N=5, R=1, alpha=1.5, beta=1, dt=None)
    add(convolution, N=3, R=1, alpha=None, beta=None, dt=0.5)
    add(convolution, N=3, R=1, alpha=1, beta=0.5, dt=None)
    add(convolution, N=8, R=1)
    add(convolution, N=4, R=2, K0=0.0)
    add(direct, N=4, R=2)
    add(direct, N=5, R=1, alpha=0.5, beta=0.7, dt=0.25)
    add(direct, N=3, R=1, alpha=None, beta=None, dt=None)
    add(walk, N=3, R=1, L=3)
    add(walk, N=3, R=2, L=2, alpha=0.5)
    add(walk, N=4, R=1, L=4, vec=True)
    add(walk, N=3, R=1, L=3, vec=True, omit=True, K0=1)
    add(walk, N=4, R=2, L=2.0, beta=0.5, dt=0.5)
    add(walk, N=3, R=2, L=3, K0=0.0)
    add(walk, N=3, R=2, L=3, mirror=True)
    add(walk, N=3, R=1, L=1.0, dt=0.5, beta=2.0, mirror=True, vec=True)
    if tier == 'thorough':
        add(convolution, N=16, R=2)
        add(convolution, N=7, R=2, alpha=0.3, beta=0.6, dt=None)
        add(walk, N=6, R=2, L=4, mirror=True)
        add(walk, N=8, R=1, L=8)
    return out
