import math

from symnp.harness import Case
from . import sim

ASSUME = ['series of at least two samples',
          'Cholesky synthesis: the requested covariance is nondegenerate (0 < H < 1, lambda > 0, L > 1); numpy\'s LinAlgError, '
          'raised otherwise, is itself a ValueError',
          'mrw2D (square fields) is outside this statement: its shape is (N, N, R) by design']


def shape_of(N, R):
    return N if R is None else (N, R)


def call(E, what, shape, method, z=None, **kw):
    F, M = E.mod('simul.fbm'), E.mod('simul.mrw')
    H = kw.pop('H', 0.6)
    k = dict(kw) if method is None else dict(kw, method=method)
    if what in ('fgn', 'fbm'):
        f = getattr(F, what)
        return f(shape, H, **k) if z is None else f(shape, H, z0=z[0], **k)
    N = shape if isinstance(shape, int) else shape[0]
    L = k.pop('L', N)
    if z is not None:
        k['z0'] = z
    if what == 'mrw_cumul':
        return M.mrw_cumul(shape, H + 0.04, -0.04, L, **k)
    return M.mrw(shape, H, 0.2, L, **k)


def fgn_cov(N, H, sigma=1.0, dt=None):
    dt = dt or 1 / N
    p = lambda v: float(abs(v)) ** (2 * H) if v or H == 0 else 0.0
    return [dt ** (2 * H) * sigma ** 2 / 2 * (p(k + 1) + p(k - 1) - 2 * p(k)) for k in range(N)]


def supplied(E, what, N, R, method):
    """A function of the supplied noise and of nothing else; it is the noise of the Gaussian generator."""
    r = R or 1
    z = sim.noise(E, 'f', N, r, method or 'cme'), sim.noise(E, 'w', N, r, method or 'cme')
    snap = E.snapshot(list(z))
    x = call(E, what, shape_of(N, R), method, z)
    y = call(E, what, shape_of(N, R), method, z)
    E.check(x.shape == ((N,) if R is None else (N, R)), f'shape {x.shape}')
    E.eq(x, y, 'same noise, same series')
    E.unchanged(list(z), snap, 'supplied noise')
    if what in ('fgn', 'fbm'):
        g = sim.gauss(E, fgn_cov(N, 0.6), N, r, z[0], method or 'cme')
        for c in range(r):
            s = 0.0
            for i in range(N):
                s = g[i, c] if what == 'fgn' else s + g[i, c]
                E.eq(x[i] if R is None else x[i, c], s, f'sample {i} from the supplied noise', atol=1e-9)
    # each realisation is driven by its own column
    if r > 1:
        for c in range(r):
            zc = tuple(v[:, c:c + 1] for v in z)
            u = call(E, what, (N, 1), method, zc)
            E.eq(u[:, 0], x[:, c], f'realisation {c} alone', atol=1e-9)


def half(E, N, R, method, which):
    """mrw with only one of its two noises supplied: that one is honoured, the other drawn."""
    M = E.mod('simul.mrw')
    z = [sim.noise(E, 'f', N, R, method), sim.noise(E, 'w', N, R, method)]
    n = sim.ndraw(N, R, method)
    other = 1 - which
    z1 = tuple(v if i == which else None for i, v in enumerate(z))
    x, draws = E.new_noise(lambda: M.mrw((N, R), 0.6, 0.2, N, method=method, z0=z1))
    E.check(len(draws) == n, f'{len(draws)} random numbers drawn for the missing noise instead of {n}')
    if method == 'chol':
        zo = E.arr([[draws[i * R + c] for c in range(R)] for i in range(N)])
    else:
        m = (2 * N - 2) * R
        zo = E.arr([[draws[i * R + c] for c in range(R)] for i in range(2 * N - 2)]) \
            + 1j * E.arr([[draws[m + i * R + c] for c in range(R)] for i in range(2 * N - 2)])
    z2 = tuple(zo if i == other else v for i, v in enumerate(z))
    y = M.mrw((N, R), 0.6, 0.2, N, method=method, z0=z2)
    E.eq(x, y, 'mrw with one supplied noise', atol=1e-9)


def shapes(E, what, N, R, method):
    x, draws = E.new_noise(lambda: call(E, what, shape_of(N, R), method))
    E.check(x.shape == ((N,) if R is None else (N, R)), f'shape {x.shape}')
    if R is None or R == 1:
        y = E.replay_noise(draws, lambda: call(E, what, (N, 1) if R is None else N, method))
        for i in range(N):
            E.eq(x[i] if R is None else x[i, 0], y[i, 0] if R is None else y[i], f'sample {i}: N and (N, 1)', atol=1e-9)


def invalid_H(E, what, side, method):
    H = E.real('H', 'real', 1, 50) if side > 0 else E.real('H', 'real', -50, 0)
    E.assume(H > 1 + 1e-9 if side > 0 else H < -1e-9)
    if what == 'mrw_cumul':
        M = E.mod('simul.mrw')
        E.raises(ValueError, lambda: M.mrw_cumul(4, H + 0.04, -0.04, 4, method=method), 'H outside [0, 1]')
    else:
        E.raises(ValueError, lambda: call(E, what, 4, method, H=H), f'{what}: H outside [0, 1]')
        z = sim.noise(E, 'f', 4, 2, method), sim.noise(E, 'w', 4, 2, method)
        E.raises(ValueError, lambda: call(E, what, (4, 2), method, z, H=H), f'{what}: H outside [0, 1] with noise')


def invalid_L(E, what, N, R):
    M = E.mod('simul.mrw')
    L = E.real('L', 'real', N, 100 * N)
    E.assume(L > N + 1e-9)
    if what == 'mrw':
        E.raises(ValueError, lambda: M.mrw(shape_of(N, R), 0.6, 0.2, L), 'L > N')
    elif what == 'mrw_cumul':
        E.raises(ValueError, lambda: M.mrw_cumul(shape_of(N, R), 0.6, -0.1, L), 'L > N')
    else:
        E.raises(ValueError, lambda: M.skewed_mrw(shape_of(N, R), 0.6, 0.2, L), 'skewed: L > N')


def invalid_skew_L(E, N):
    """The integral scale is compared in samples, L / dt."""
    M = E.mod('simul.mrw')
    dt = E.real('dt', 'pos', 0.01, 0.9)
    L = E.real('L', 'pos', 0.01, 100)
    E.assume(L > (N + 1e-6) * dt)
    E.raises(ValueError, lambda: M.skewed_mrw((N, 1), 0.6, 0.2, L, dt=dt), 'skewed: L / dt > N')


def unknown(E, what, name, R):
    E.raises(ValueError, lambda: call(E, what, shape_of(4, R), name), f'{what}: method {name!r}')
    z = tuple(sim.noise(E, n, 4, R or 1, 'cme') for n in 'fw')
    E.raises(ValueError, lambda: call(E, what, shape_of(4, R), name, z), f'{what}: method {name!r} with noise')


def accepted(E, what, N, R, H, method, L=None):
    """Inside the documented ranges nothing is raised."""
    if H == 'sym':
        H = E.real('H', 'real', 0.001 if method == 'chol' else 0, 0.999 if method == 'chol' else 1)
        if E.sym and method == 'chol':
            E.assume(E.pw(2.0, 2 * H) / 2 - 1 < 1)
            E.assume(E.pw(2.0, 2 * H) / 2 - 1 > -1)
    kw = {} if L is None else {'L': L}
    x = call(E, what, shape_of(N, R), method, H=H, **kw)
    E.check(x.shape == ((N,) if R is None else (N, R)), f'shape {x.shape}')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    for w in ('fgn', 'fbm', 'mrw', 'mrw_cumul'):
        for m in ('cme', 'chol'):
            add(supplied, what=w, N=4, R=None, method=m)
            add(supplied, what=w, N=4, R=2, method=m)
            add(shapes, what=w, N=3, R=None, method=m)
            add(shapes, what=w, N=4, R=1, method=m)
            add(shapes, what=w, N=4, R=3, method=m)
            add(invalid_H, what=w, side=1, method=m)
            add(invalid_H, what=w, side=-1, method=m)
        add(supplied, what=w, N=3, R=3, method=None)
        add(unknown, what=w, name='CME', R=None)
        add(unknown, what=w, name='', R=2)
    for w in ('mrw', 'mrw_cumul', 'skewed'):
        add(invalid_L, what=w, N=4, R=None)
        add(invalid_L, what=w, N=5, R=2)
    add(invalid_skew_L, N=4)
    for m in ('cme', 'chol'):
        for wh in (0, 1):
            add(half, N=3, R=2, method=m, which=wh)
        add(accepted, what='fgn', N=2, R=None, H='sym', method=m)
        add(accepted, what='mrw', N=4, R=2, H=0.5, method=m, L=4)
        add(accepted, what='mrw', N=4, R=2, H=0.5, method=m, L=2)
    for H in (0, 1, 0.0, 1.0):
        add(accepted, what='fgn', N=4, R=2, H=H, method='cme')
        add(accepted, what='mrw', N=4, R=None, H=H, method='cme')
    add(accepted, what='mrw', N=4, R=2, H=0.5, method='cme', L=1)
    if tier == 'thorough':
        for w in ('fgn', 'fbm', 'mrw', 'mrw_cumul'):
            for m in ('cme', 'chol'):
                add(supplied, what=w, N=8, R=2, method=m)
                add(shapes, what=w, N=8, R=1, method=m)
        add(accepted, what='fgn', N=3, R=2, H='sym', method='cme')
    return out
