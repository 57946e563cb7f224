import math

from symnp.harness import Case
from . import sim
from .c24 import gram

ASSUME = ['L is a whole number of samples; the magnitude covariance ln(L/(k+1)) is tested where its circulant embedding / '
          'Toeplitz matrix is positive',
          'the Gaussian generators are covered by C24 and the fractional Gaussian noise by C24 and C26']


def reference(E, e, w, N, R, lam, L):
    """cumsum of e * exp(centred w - lam^2/2 ln L)."""
    ww = sim.centred(E, w, N, R, lam * lam / 2 * math.log(L))
    out = []
    for r in range(R):
        s, col = None, []
        for i in range(N):
            t = e[i, r] * E.exp(ww[r][i])
            s = t if s is None else s + t
            col.append(s)
        out.append(col)
    return out


def compare(E, x, want, N, R, vec, msg):
    E.check(x.shape == ((N,) if vec else (N, R)), f'{msg}: shape {x.shape}')
    for r in range(R):
        for i in range(N):
            E.eq(x[i] if vec else x[i, r], want[r][i], f'{msg}: sample {i} of realisation {r}', atol=1e-9)


def params(E, H, lam, sigma):
    return (E.real('H', 'real', 0.1, 0.9) if H is None else H,
            E.real('lam', 'pos', 0.01, 1) if lam is None else lam,
            E.real('sigma', 'pos', 0.1, 5) if sigma is None else sigma)


def supplied(E, N, R, L, H=0.6, lam=None, sigma=None, method='cme', vec=False, cumul=False):
    """The walk driven by supplied noise."""
    M, F = E.mod('simul.mrw'), E.mod('simul.fbm')
    H, lam, sigma = params(E, H, lam, sigma)
    zf, zw = sim.noise(E, 'f', N, R, method), sim.noise(E, 'w', N, R, method)
    shape = N if vec else (N, R)
    if cumul:
        x = M.mrw_cumul(shape, H + lam * lam, -(lam * lam), L, sigma=sigma, method=method, z0=(zf, zw))
    else:
        x = M.mrw(shape, H, lam, L, sigma=sigma, method=method, z0=(zf, zw))
    e = F.fgn((N, R), H, sigma, method=method, z0=zf)
    w = sim.gauss(E, sim.logcov(E, N, L, lam), N, R, zw, method)
    compare(E, x, reference(E, e, w, N, R, lam, L), N, R, vec, 'mrw')


def drawn(E, N, R, L, H=0.6, lam=None, sigma=None, method='cme', vec=False, omit=False):
    """The walk driven by its own noise."""
    M, F = E.mod('simul.mrw'), E.mod('simul.fbm')
    H, lam, sigma = params(E, H, lam, 1.0 if omit else sigma)
    shape = N if vec else (N, R)
    kw = {} if omit else dict(sigma=sigma, method=method)
    x, draws = E.new_noise(lambda: M.mrw(shape, H, lam, L, **kw))
    n = sim.ndraw(N, R, method)
    dw, de = sim.split(E, draws, n, n, lambda: M.mrw(shape, 0.6, 0.3, L, **({} if omit else dict(method=method))))
    e = E.replay_noise(de, lambda: F.fgn((N, R), H, sigma, method=method))
    w = sim.gauss_draws(E, sim.logcov(E, N, L, lam), N, R, dw, method)
    compare(E, x, reference(E, e, w, N, R, lam, L), N, R, vec, 'mrw')


def degenerate(E, N, R, L, H, vec=False):
    """lambda = 0 gives fractional Brownian motion."""
    M, F = E.mod('simul.mrw'), E.mod('simul.fbm')
    s = E.real('sigma', 'pos', 0.1, 5)
    zf, zw = sim.noise(E, 'f', N, R, 'cme'), sim.noise(E, 'w', N, R, 'cme')
    shape = N if vec else (N, R)
    x = M.mrw(shape, H, 0.0, L, sigma=s, z0=(zf, zw))
    y = F.fbm(shape, H, s, z0=zf)
    E.check(x.shape == y.shape, f'shape {x.shape}')
    E.eq(x, y, 'mrw with lambda = 0', atol=1e-9)


def scaling(E, N, R, L, method, how):
    """Proportional to sigma, whatever the noise."""
    M = E.mod('simul.mrw')
    s = E.real('sigma', 'pos', 0.1, 5)
    if how == 'drawn':
        x, draws = E.new_noise(lambda: M.mrw((N, R), 0.7, 0.3, L, s, method=method))
        y = E.replay_noise(draws, lambda: M.mrw((N, R), 0.7, 0.3, L, method=method))
    else:
        z = sim.noise(E, 'f', N, R, method), sim.noise(E, 'w', N, R, method)
        x = M.mrw((N, R), 0.7, 0.3, L, sigma=s, method=method, z0=z)
        y = M.mrw((N, R), 0.7, 0.3, L, sigma=1, method=method, z0=z)
    for r in range(R):
        for i in range(N):
            E.eq(x[i, r], s * y[i, r], f'sample {i}', atol=1e-9)


def cumul(E, N, R, L, method='cme', free=False):
    """Construction from log-cumulants."""
    M = E.mod('simul.mrw')
    c2 = E.real('c2', 'real', -0.3, -0.01)
    if free:
        c1 = E.real('c1', 'real', 0.4, 0.9)
        H = c1 + c2
    else:
        H = 0.6
        c1 = H - c2
    z = sim.noise(E, 'f', N, R, method), sim.noise(E, 'w', N, R, method)
    x = M.mrw_cumul((N, R), c1, c2, L, method=method, z0=z)
    y = M.mrw((N, R), H, E.sqrt(-c2), L, method=method, z0=z)
    E.eq(x, y, 'mrw_cumul', atol=1e-9)


def magnitude(E, N, R, L, method, lam=None, dt=1):
    """The Gaussian magnitude before centring has the stated covariance."""
    M = E.mod('simul.mrw')
    lam = E.real('lam', 'pos', 0.01, 1) if lam is None else lam
    cols, base = E.linear_map(lambda: M.gaussian_w(N, R, L, lam, dt, method))
    cov = sim.logcov(E, N, L, lam, dt)
    gram(E, cols, base, lambda i, j: cov[abs(i - j)], N, R, f'magnitude {method}')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    for m in ('cme', 'chol'):
        add(supplied, N=4, R=1, L=4, method=m)
        add(supplied, N=4, R=2, L=3, method=m)
        add(supplied, N=5, R=1, L=2, method=m, vec=True)
        add(supplied, N=4, R=2, L=4, method=m, cumul=True)
        add(drawn, N=4, R=1, L=4, method=m)
        add(drawn, N=4, R=2, L=3, method=m)
        add(drawn, N=6, R=1, L=4, method=m, vec=True, sigma=1.5)
        add(scaling, N=4, R=2, L=4, method=m, how='supplied')
        add(scaling, N=4, R=1, L=3, method=m, how='drawn')
        add(cumul, N=4, R=2, L=3, method=m)
        add(magnitude, N=6, R=2, L=6, method=m)
        add(magnitude, N=8, R=1, L=4, method=m)
        add(magnitude, N=4, R=1, L=1.0, method=m, dt=0.25)
    add(supplied, N=3, R=1, L=3, H=None)
    add(cumul, N=3, R=1, L=3, free=True)
    add(drawn, N=4, R=1, L=4, vec=True, omit=True)
    add(degenerate, N=4, R=2, L=3, H=0.7)
    add(degenerate, N=6, R=1, L=6, H=0.3, vec=True)
    if tier == 'thorough':
        for m in ('cme', 'chol'):
            add(supplied, N=12, R=2, L=8, method=m)
            add(supplied, N=16, R=1, L=16, method=m)
            add(drawn, N=12, R=2, L=6, method=m)
            add(magnitude, N=16, R=2, L=16, method=m)
            add(magnitude, N=12, R=1, L=3.0, method=m, dt=0.5)
        add(supplied, N=4, R=1, L=3, H=None)
        add(degenerate, N=16, R=2, L=8, H=0.5)
    return out
