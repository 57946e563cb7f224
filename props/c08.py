import math

import numpy as np

from symnp.harness import Case
from . import ref

INF = math.inf
ASSUME = ['an argument counts as modified when a value it holds differs after the call (attributes added to an object are not '
          'looked at)']


def keeps(E, fn, args, again=True, other=None):
    """fn(*args) leaves args as they were; the same call gives the same result; neither a second call nor
    another analysis (`other`) of the same objects changes what the first one returned."""
    snap = E.snapshot(args)
    r = fn(*args)
    E.unchanged(args, snap, 'argument')
    if not again:
        return r
    s = E.snapshot(r)
    if other is not None:
        other(*args)
        E.unchanged(args, snap, 'argument of another analysis')
        E.unchanged(r, s, 'earlier result')
    r2 = fn(*args)
    E.unchanged(args, snap, 'argument of the second call')
    E.unchanged(r, s, 'result of the first call')
    E.unchanged(r2, s, 'result of the second call')
    return r


def orders(E, q):
    return [E.real(f'q{i}', 'real', -3, 6, special=(0.0, 1.0, 2.0)) if v is None else v for i, v in enumerate(q)]


def wavelet(E, n, wt='db1', p=None, nrep=0, miss=(), j2=10, gamint=0.0, norm=1, other=False):
    x = E.array('x', (n, nrep) if nrep else n, nan=miss)
    W = E.mod('wavelet')

    def go(x):
        return E.warned(lambda: W.wavelet_analysis(x, p_exp=p, wt_name=wt, j2=j2, gamint=gamint, normalization=norm))[0]
    keeps(E, go, [x], other=(lambda x: W.wavelet_analysis(x, wt_name='db1', normalization=2)) if other else None)


def estimator(E, which, counts, q=(2.0,), nrep=1, nan=None, M=2, weighted=True, j1=1, other=False):
    m, _ = ref.random_mrq(E, 'c', counts, nrep, nan, 'pos' if which == 'spectrum' else 'nz')
    top = len(counts)
    qa = E.arr(orders(E, q))
    S = E.mod('structurefunction').StructureFunction
    C = E.mod('cumulants').Cumulants
    P = E.mod('mfspectrum').MultifractalSpectrum
    H = E.mod('estimation')
    f = {'structure': lambda m, q: S(m, q, j1, top, weighted),
         'cumulants': lambda m, q: C(m, M, j1, top, weighted),
         'spectrum': lambda m, q: P(m, j1, top, weighted, q),
         'hmin': lambda m, q: H.estimate_hmin(m, j1, top, weighted, False, True),
         'hurst': lambda m, q: H.compute_hurst(m, j1, top, weighted),
         'dict': lambda m, q: (S.from_dict(dict(mrq=m, q=q, j1=j1, j2=top, weighted=weighted)),
                               C.from_dict(dict(mrq=m, n_cumul=M, j1=j1, j2=top, weighted=weighted)))}
    g = (lambda m, q: [f[k](m, q) for k in ('structure', 'cumulants', 'hmin', 'hurst')]) if other else None
    keeps(E, f[which], [m, qa], other=g)


def mfa(E, counts, q=(0.0, 2.0), form='array', leaders=True, nrep=1, M=2, weighted=True, j1=1, minimal=False, nan=None):
    c, _ = ref.random_mrq(E, 'c', counts, nrep, nan, 'pos')
    ld = ref.random_mrq(E, 'l', counts, nrep, nan, 'pos', 'wavelet p-leader')[0] if leaders else None
    A = E.mod('mfa')
    args = [c, ld, None if q is None else E.arr(list(q)) if form == 'array' else list(q)]
    fn = A.minimal_mf_analysis if minimal else A.mf_analysis
    keeps(E, lambda c, l, q: fn(c, l, len(counts), j1, weighted, M, q), args)


def full(E, n, p='none', q=(1.0, 2.0), nrep=0, minimal=False, j1=1, wt='db1', form='array'):
    x = E.array('x', (n, nrep) if nrep else n)
    A = E.mod('mfa')
    if p not in ('none', INF):
        ref.opaque_leaders(E)
    args = [x, list(q) if form == 'list' else E.arr(list(q))]
    keeps(E, lambda x, q: E.warned(lambda: A.mf_analysis_full(
        x, j1, 3, wt_name=wt, p_exp=None if p == 'none' else p, q=q, n_cumul=2, minimal=minimal))[0], args)


def bivariate(E, counts, leaders=False, nan=None, q1=(0.0, 1.0, 2.0), q2=(0.0, 1.0, 2.0), M=2, weighted=True):
    f, d = ('wavelet leader', 'pos') if leaders else ('wavelet coef', 'nz')
    a, _ = ref.random_mrq(E, 'a', counts, 1, nan, d, f)
    b, _ = ref.random_mrq(E, 'b', counts, 1, nan, d, f)
    top = len(counts)
    C = E.mod('bivariate.bivariate_cumulants').BiCumulants
    S = E.mod('bivariate.bivariate_structurefunction').BiStructureFunction
    keeps(E, lambda a, b, q1, q2: (C(a, b, M, 1, top, weighted), S(a, b, 1, top, q1, q2, weighted)),
          [a, b, E.arr(list(q1)), E.arr(list(q2))])


def bifull(E, n, p=None):
    a, b = E.array('x', n), E.array('y', n)
    B = E.mod('bivariate.bimfa')
    q = E.arr([0.0, 1.0, 2.0])
    keeps(E, lambda a, b, q1, q2: E.warned(lambda: B.bivariate_analysis_full(
        a, b, 1, 2, wt_name='db1', p_exp=p, n_cumul=2, q1=q1, q2=q2))[0], [a, b, q, E.arr([0.0, 1.0, 2.0])])


def density(E, kind, n, shape=None, n_fft=8, seg=None, moments=1, j2=None):
    x = E.array('x', shape or n)
    P = E.mod('psd')
    f = {'welch': lambda x: P.welch_estimation(x, 2.0, n_fft, seg),
         'wavelet': lambda x: P.wavelet_estimation(x, 2.0, moments, j2),
         'fractal': lambda x: E.mod('fractal_analysis').fractal_analysis(x, 2.0, moments, (0.05, 1.0))}[kind]
    keeps(E, f, [x])


def beta(E, n, log='log2', zero=True, band=(0.2, 1.6), lists=False):
    fr = np.arange(0 if zero else 1, n + (0 if zero else 1)) / 4.0
    ps = E.array('p', n, 'pos')
    band = list(band) if lists else band
    keeps(E, lambda f, p, b: E.mod('fractal_analysis').estimate_beta(f, p, b, log), [fr, ps, band])


def logplot(E, sizes, low=None, slope=False, log='log2', lists=True):
    P = E.mod('psd')
    fs = [np.arange(n) / 2.0 for n in sizes]
    ps = [E.array(f'p{i}', n, 'pos') for i, n in enumerate(sizes)]
    if not lists:
        fs, ps = tuple(fs), tuple(ps)
    opts = {'legend': ['a'] * len(sizes), 'fmt': ['-'] * len(sizes), 'color': ['r'] * len(sizes)}
    if slope:
        opts['slope'] = [(E.array('sx', 2), E.array('sy', 2))]
    kw = {} if low is None else {'lowpass_freq': low}
    keeps(E, lambda f, p, o: E.figure(lambda: P.log_plot(f, p, log=log, **o, **kw)) and None, [fs, ps, opts])


def figures(E, kind):
    """plot_psd / plot_fractal / plot_hmin leave their arguments alone."""
    if kind == 'hmin':
        m, _ = ref.random_mrq(E, 'c', (5, 4, 3), 1)
        keeps(E, lambda m: E.figure(lambda: E.mod('estimation').plot_hmin(m, 1, 3, True, False)) and None, [m])
        return
    x = E.array('x', 40)
    f = {'psd': lambda x: E.mod('psd').plot_psd(x, 4.0, 8, None, 1),
         'fractal': lambda x: E.mod('fractal_analysis').plot_fractal(x, 4.0, 'log2', (0.2, 2), 1, n_fft=8)}[kind]
    keeps(E, lambda x: E.figure(lambda: f(x)) and None, [x])


def tools(E, kind, e=None, n=4, cols=2):
    U = E.mod('utils')
    x = E.array('x', (n, cols), 'nz', nan=[(1, 0)] if kind != 'regression' else ())
    if kind == 'power':
        v = E.real('e', 'real', -4, 12, special=(0.0, 1.0, 2.0, 0.5, -1.0, 3.0)) if e is None else e
        y = E.array('y', (n, cols), 'pos', nan=[(1, 0)])
        keeps(E, lambda a: U.fast_power(a, v), [y if e is None or float(e) != int(e) else x])
    elif kind in ('fixednansum', 'fixednanmax'):
        keeps(E, lambda a: getattr(U, kind)(a, axis=1), [x])
    else:
        t = np.tile(np.arange(1, n + 1)[:, None], (1, cols))
        w = E.array('w', (n, cols), 'pos')
        keeps(E, lambda t, y, w: U.linear_regression(t, y, w, True), [t, x, w])


def pieces(E, kind, p=2, n=32, wt='db1', j=3, nrep=1):
    """The building blocks of the wavelet analysis."""
    W = E.mod('wavelet')
    if kind == 'filtering':
        lo, hi = ref.filters(wt)
        keeps(E, lambda a, h, l: W.filtering(a, h, l), [E.array('x', (n, nrep)), np.array(hi)[:, None], np.array(lo)[:, None]])
        return
    m, _ = ref.random_mrq(E, 'c', (5, 4, 3), nrep, None, 'pos')
    ld, _ = ref.random_mrq(E, 'l', (5, 4, 3), nrep, {1: [(0, r) for r in range(nrep)]}, 'pos', 'wavelet p-leader')
    if kind == 'eta':
        keeps(E, lambda m: W._estimate_eta_p(m, p, 1, 3, True), [m])


def fields(E, kind, N=4, R=2, method='cme'):
    """The white noise handed to the generators is left alone."""
    F, M = E.mod('simul.fbm'), E.mod('simul.mrw')
    Z = E.mod('simul.pzutils')
    if kind == 'cme':
        z = E.array('z', (2 * N - 2, R))
        keeps(E, lambda c, z: Z.gaussian_cme(c, N, R, z), [np.array([2.0 ** -k for k in range(N)]), z])
    elif kind == 'chol':
        z = E.array('z', (N, R))
        keeps(E, lambda c, z: Z.gaussian_chol(c, N, R, z), [np.array([2.0 ** -k for k in range(N)]), z])
    elif kind in ('fgn', 'fbm'):
        z = E.array('z', (N if method == 'chol' else 2 * N - 2, R))
        f = F.fgn if kind == 'fgn' else F.fbm
        keeps(E, lambda z: f((N, R), 0.7, method=method, z0=z), [z])
    elif kind == 'mrw':
        k = N if method == 'chol' else 2 * N - 2
        keeps(E, lambda a, b: M.mrw((N, R), 0.7, 0.3, N, method=method, z0=(a, b)),
              [E.array('a', (k, R)), E.array('b', (k, R))])
    else:
        e = E.array('e', (2 * N if kind == 'skew' else N, R))
        f = M.skewness_convolution if kind == 'skew' else M.skewness_convolution_dumb
        keeps(E, lambda e: f(e, 0.4, 0.8, 0.6, 1), [e])


def signal(E, n=24):
    """The array a Signal was made from, and its other results."""
    x = E.array('x', n)
    S = E.mod('signal')

    def go(x):
        s = S.Signal(x, 4.0)
        return (s.estimate_welch_psd(8), s.estimate_wavelet_psd(1))
    keeps(E, go, [x])


def cases(tier):
    out = []

    def add(f, *a, **k):
        t = ' '.join([f.__name__] + [str(v) for v in a] + [f'{x}={y}' for x, y in k.items()])
        out.append(Case(t, lambda E: f(E, *a, **k), bound=t))
    add(wavelet, 16)
    add(wavelet, 21, wt='db2', nrep=2, miss=[(9, 1)], norm=2)
    add(wavelet, 22, p=INF, gamint=0.5, other=True)
    add(wavelet, 26, p=1, nrep=1)
    add(wavelet, 24, p=2, nrep=2, j2=3, other=True)
    add(wavelet, 24, p=0.5, gamint=1.0, miss=[(7,)])
    for q in ((None,), (0.0, -1.0), (0.5, 2.0, 3.0)):
        add(estimator, 'structure', (5, 4, 3), q=q, other=q[0] == 0.0)
        add(estimator, 'spectrum', (4, 3), q=q)
    add(estimator, 'structure', (4, 3), q=(0.0, 1.0, 2.0), nrep=2, nan={1: [(0, 0), (2, 1)]}, weighted=False)
    add(estimator, 'spectrum', (4, 4, 3), q=(0.0, 2.0), nrep=2, nan={1: [(0, 0), (2, 1)]}, j1=2)
    add(estimator, 'cumulants', (4, 4, 3), M=3, nrep=2, nan={2: [(1, 0)]})
    add(estimator, 'cumulants', (4, 3), M=4, weighted=False, other=True)
    add(estimator, 'hmin', (4, 4, 3), nrep=2, nan={1: [(0, 1)]}, j1=2, other=True)
    add(estimator, 'hurst', (5, 4, 3), other=True)
    add(estimator, 'dict', (5, 4), q=(0.0, 2.0), nan={1: [(3, 0)]})
    add(mfa, (4, 3))
    add(mfa, (4, 3), form='list', q=(-1.0, 0.0))
    add(mfa, (4, 3, 3), q=None, leaders=False, M=3)
    add(mfa, (4, 3), nrep=2, weighted=False, nan={1: [(1, 0)]})
    add(mfa, (4, 3), minimal=True, q=(1.0, 2.0))
    add(mfa, (4, 3), minimal=True, leaders=False, form='list')
    add(full, 16, q=(0.0, 2.0))
    add(full, 28, p=INF, q=(1.0,), minimal=True)
    add(full, 28, p=2, q=(0.0, 1.0), form="list")
    add(full, 26, p=INF, q=(2.0,), nrep=2)
    add(bivariate, (4, 3))
    add(bivariate, (4, 4, 3), leaders=True, nan={1: [(1, 0)]}, q1=(1.0, 0.5), q2=(-1.0, 0.0, 2.0), weighted=False, M=3)
    add(bifull, 14)
    add(bifull, 28, p=INF)
    add(density, 'welch', 20)
    add(density, 'welch', 24, seg=6, n_fft=6)
    add(density, 'wavelet', 24)
    add(density, 'wavelet', 30, shape=(30, 2), j2=2)
    add(density, 'fractal', 32)
    add(beta, 6)
    add(beta, 6, log='log', lists=True)
    add(beta, 5, zero=False, band=(0.25, 1.0))
    add(logplot, (5, 4))
    add(logplot, (4,), low=1.2, slope=True, log='log')
    add(logplot, (5, 3), low=1.2, lists=False)
    for k in ('psd', 'fractal', 'hmin'):
        add(figures, k)
    for e in (None, 0.0, 1.0, 2, -1, 3.0, 7, 0.5, -2.5):
        add(tools, 'power', e)
    for k in ('fixednansum', 'fixednanmax', 'regression'):
        add(tools, k)
    add(pieces, 'filtering', n=9, nrep=2)
    add(pieces, 'filtering', n=12, wt='db2')
    add(pieces, 'eta', p=2)
    add(pieces, 'eta', p=1, nrep=2)
    for k, N, m in (('cme', 5, ''), ('chol', 4, ''), ('fgn', 5, 'cme'), ('fgn', 4, 'chol'), ('fbm', 4, 'cme'),
                    ('mrw', 4, 'cme'), ('mrw', 3, 'chol'), ('skew', 3, ''), ('dumb', 4, '')):
        add(fields, k, N, 2, m)
    add(signal)
    if tier == 'thorough':
        for n in (33, 50, 64):
            for p in (None, INF, 2, 1.5):
                add(wavelet, n, p=p, nrep=2, wt='db2' if n < 60 else 'db1', miss=[(n // 2, 0)], gamint=0.5)
        for q in ((None, None), (-3.0, -1.0, 0.0, 1.0, 3.0, 5.0), (0.0, None)):
            for w in (True, False):
                add(estimator, 'structure', (7, 5, 4, 3), q=q, nrep=2, weighted=w, other=True, nan={1: [(5, 1)]})
                add(estimator, 'spectrum', (5, 4, 3), q=q, weighted=w)
        add(mfa, (6, 5, 4), nrep=2, M=4, q=(-2.0, -1.0, 0.0, 1.0, 2.0))
        add(full, 40, p=INF, q=(0.0, 1.0, 2.0), nrep=2, form='list')
        add(bivariate, (6, 5, 4), leaders=True, M=4, q1=(-1.0, 0.0, 1.0, 2.0), q2=(0.0, 1.0, 2.0, 3.0))
        add(bifull, 40, p=2)
        add(density, 'wavelet', 64, moments=2)
        add(density, 'welch', 40, n_fft=16, seg=9)
    return out
