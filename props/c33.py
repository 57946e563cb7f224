import math

import numpy as np

from symnp.harness import Case
from . import ref
from .c18 import build

ASSUME = ['the drawing library shows the points it is handed: what is checked is the data and the labels passed to it',
          'one realisation (the univariate figures are defined for one only); no figure of the same name or number is open',
          'plot_legendre, plot_legendre_pv (3-D, broken or unavailable with the installed matplotlib / pyvista) and '
          'viz.plot_multiscale (pandas bookkeeping) are outside']


def regression(E, line, slope, inter, j1, j2, msg):
    """The line is drawn through slope and intercept and spans j1..j2."""
    _, x, y, k = line
    E.check(len(x) == len(y) >= 2, f'{msg}: regression line')
    E.check(min(x) == j1 and max(x) == j2, f'{msg}: the regression is drawn over {min(x)}..{max(x)}')
    for a, b in zip(x, y):
        E.eq(b, slope * a + inter, f'{msg}: regression line at {a}', atol=1e-9)


def perscale(E, line, js, vals, msg):
    _, x, y, k = line
    E.check(list(map(float, x)) == list(map(float, js)), f'{msg}: abscissae {x}')
    E.check(len(y) == len(vals), f'{msg}: {len(y)} values')
    for a, b, j in zip(y, vals, js):
        E.eq(a, b, f'{msg}: value drawn at scale {j}', atol=1e-9)


def panels(E, lines, n, msg):
    """Lines grouped by panel, in order of appearance; two lines each, the values first."""
    g = {}
    for l in lines:
        g.setdefault(l[0], []).append(l)
    E.check(len(g) == n and all(len(v) == 2 for v in g.values()),
            f'{msg}: {[len(v) for v in g.values()]} lines in {len(g)} panels instead of two in each of {n}')
    return [v if len(v[0][1]) >= len(v[1][1]) else v[::-1] for v in g.values()]


def frozen(E, obj, f, msg):
    """Drawing does not change the estimates."""
    snap = E.snapshot(obj)
    r = E.figure(f)
    E.unchanged(obj, snap, f'{msg}: drawing changed the estimates')
    return r


def structure(E, counts, q, j1=1, j2=None, ignore=True, nrow=4, nan=None, weighted=True, twice=False):
    m, _ = ref.random_mrq(E, 'c', counts, 1, nan)
    top = j2 or len(counts)
    s = E.mod('structurefunction').StructureFunction(m, E.arr(list(q)), j1, top, weighted)
    kw = {} if ignore is True else {'ignore_q0': ignore}
    if nrow != 4:
        kw['nrow'] = nrow
    shown = [i for i, v in enumerate(q) if v != 0 or not ignore]
    lines = frozen(E, s, lambda: s.plot(**kw), 'structure functions')
    for i, (a, b) in zip(shown, panels(E, lines, len(shown), 'structure functions')):
        sc = [int(j) for j in s.j]
        perscale(E, a, sc, [np.ravel(s.logvalues[i, n])[0] for n in range(len(sc))], f'q={q[i]}')
        z, c = np.ravel(s.zeta[i])[0], np.ravel(s.intercept[i])[0]
        regression(E, b, z, c, j1, top, f'q={q[i]}')
        E.label(b[3]['label'], z, f'slope shown for q={q[i]}', 5)


def scaling(E, counts, q, j1=1):
    m, _ = ref.random_mrq(E, 'c', counts, 1)
    s = E.mod('structurefunction').StructureFunction(m, E.arr(list(q)), j1, len(counts), True)
    lines = frozen(E, s, s.plot_scaling, 'scaling function')
    E.check(len(lines) == 1, f'{len(lines)} lines')
    _, x, y, k = lines[0]
    E.check(len(x) == len(y) == len(q), 'points')
    for i, v in enumerate(q):
        E.eq(x[i], v, 'q')
        E.eq(y[i], np.ravel(s.zeta[i])[0], f'zeta drawn at q={v}')


def cumulants(E, counts, M, j1=1, j2=None, nrow=3, nan=None, weighted=True):
    m, _ = ref.random_mrq(E, 'c', counts, 1, nan)
    top = j2 or len(counts)
    c = E.mod('cumulants').Cumulants(m, M, j1, top, weighted)
    lines = frozen(E, c, (lambda: c.plot()) if nrow == 3 else (lambda: c.plot(nrow=nrow)), 'cumulants')
    for i, (a, b) in enumerate(panels(E, lines, M, 'cumulants')):
        sc = [int(j) for j in c.j]
        perscale(E, a, sc, [np.ravel(c.values[i, n])[0] for n in range(len(sc))], f'C{i + 1}')
        sl, it = np.ravel(c.slope[i])[0], np.ravel(c.intercept[i])[0]
        regression(E, b, sl, it, j1, top, f'C{i + 1}')
        E.label(b[3]['label'].replace('(e)', ''), np.ravel(c.log_cumulants[i])[0], f'slope shown for C{i + 1}', 5)


def spectrum(E, counts, q, j1=1, own=False):
    m, _ = ref.random_mrq(E, 'c', counts, 1, dom='pos')
    s = E.mod('mfspectrum').MultifractalSpectrum(m, j1, len(counts), True, E.arr(list(q)))
    lines = frozen(E, s, (lambda: s.plot(fmt='r--', lw=2)) if own else s.plot, 'spectrum')
    E.check(len(lines) == 1, f'{len(lines)} lines')
    _, x, y, k = lines[0]
    E.check(len(x) == len(y) == len(q), 'points')
    for i, v in enumerate(q):
        E.eq(x[i], np.ravel(s.hq[i])[0], f'h({v})')
        E.eq(y[i], np.ravel(s.Dq[i])[0], f'D({v})')


def hmin(E, counts, j1=1, j2=None, weighted=True, nrep=1, nan=None):
    m, _ = ref.random_mrq(E, 'c', counts, nrep, nan)
    top = j2 or len(counts)
    P = E.mod('estimation')
    h, it, y = P.estimate_hmin(m, j1, top, weighted, False, return_y=True)
    lines = frozen(E, m, lambda: P.plot_hmin(m, j1, top, weighted, False), 'hmin')
    E.check(len(lines) == 2, f'{len(lines)} lines')
    for line, reg in zip(lines, (False, True)):
        xs = line[1]
        E.check(xs[0] == j1 and xs[-1] == top, f'scales {xs}')
        rows = line[2]
        for n, x in enumerate(xs):
            row = rows[n] if isinstance(rows[n], list) else list(np.ravel(rows[n]))
            E.check(len(row) == nrep, 'one curve per realisation')
            for r in range(nrep):
                E.eq(row[r], h[r] * x + it[r] if reg else y[n, r], f'{"regression" if reg else "log-supremum"} at {x}', atol=1e-9)
        if not reg:
            E.check([float(v) for v in xs] == [float(j) for j in range(j1, top + 1)], 'scales of the log-suprema')
    if nrep == 1:
        E.label(lines[1][3]['label'], h[0], 'hmin shown', 5)


def bicumulants(E, counts, M, j1=1, j2=None, leaders=False, weighted=True):
    a, b, _, _ = build(E, counts, leaders, None, 0.0)
    top = j2 or len(counts)
    c = E.mod('bivariate.bivariate_cumulants').BiCumulants(a, b, M, j1, top, weighted)
    lines = frozen(E, c, c.plot, 'bivariate cumulants')
    idx = [v for i in range(1, M + 1) for v in ((i, 0), (0, i))] + [(1, 1)]
    sc = [int(j) for j in c.j]
    for (p, q), (u, v) in zip(idx, panels(E, lines, len(idx), 'bivariate cumulants')):
        perscale(E, u, sc, [c.values[p, q, n] for n in range(len(sc))], f'C{p}{q}')
        regression(E, v, c.slope[p, q], c.intercept[p, q], j1, top, f'C{p}{q}')
        E.label(v[3]['label'], c.log_cumulants[p, q], f'c{p}{q} shown', 2)


def bistructure(E, counts, q1, q2, j1=1, j2=None, leaders=False, weighted=True):
    a, b, _, _ = build(E, counts, leaders, None, 0.0)
    top = j2 or len(counts)
    s = E.mod('bivariate.bivariate_structurefunction').BiStructureFunction(a, b, j1, top, E.arr(list(q1)), E.arr(list(q2)), weighted)
    lines = frozen(E, s, s.plot, 'bivariate structure functions')
    idx = [(i, k) for i in range(len(q1)) for k in range(len(q2))]
    sc = [int(j) for j in s.j]
    for (i, k), (u, v) in zip(idx, panels(E, lines, len(idx), 'bivariate structure functions')):
        perscale(E, u, sc, [s.logvalues[i, k, n] for n in range(len(sc))], f'S({q1[i]}, {q2[k]})')
        regression(E, v, s.zeta[i, k], s.intercept[i, k], j1, top, f'S({q1[i]}, {q2[k]})')
        E.label(v[3]['label'].split(':')[-1], s.zeta[i, k], f'slope shown for ({q1[i]}, {q2[k]})', 2)


# ---- PSD figures

def curve(E, line, freq, psd, log, msg, keep=None):
    f = E.log2 if log == 'log2' else E.log
    pts = [(a, b) for a, b in zip(freq, psd) if not (isinstance(a, (int, float, np.number)) and a == 0) and (keep is None or keep(a))]
    _, x, y, k = line
    E.check(len(x) == len(y) == len(pts), f'{msg}: {len(x)} points instead of {len(pts)}')
    for n, (a, b) in enumerate(pts):
        E.eq(x[n], f(a), f'{msg}: log frequency {n}')
        E.eq(y[n], f(b), f'{msg}: log density {n}')


def logplot(E, sizes, log='log2', low=None, zero=True, slope=False):
    P = E.mod('psd')
    fs, ps = [], []
    for i, n in enumerate(sizes):
        if low == 'sym':
            # increasing symbolic frequencies, the first one possibly zero
            fr = [0.0] if zero else [E.real(f'f{i}_0', 'pos', 0.001, 1)]
            for k in range(1, n):
                fr.append(fr[-1] + E.real(f'f{i}_{k}', 'pos', 0.1, 1))
            fs.append(E.arr(fr))
        else:
            fs.append(np.arange(0 if zero else 1, n + (0 if zero else 1)) / 2.0)
        ps.append(E.array(f'p{i}', n, 'pos'))
    kw = {'log': log}
    if low is not None:
        kw['lowpass_freq'] = E.real('low', 'pos', 0.05, 4) if low == 'sym' else low
    if slope:
        sx, sy = E.array('sx', 2), E.array('sy', 2)
        kw['slope'] = [(sx, sy)]
    data = [list(fs), list(ps)]
    lines = frozen(E, data, lambda: P.log_plot(data[0], data[1], ['a'] * len(sizes), **kw), 'log_plot')
    E.check(len(lines) == len(sizes) + bool(slope), f'{len(lines)} curves')
    keep = (lambda a: E.decide(a < kw['lowpass_freq'])) if low is not None else None
    for i in range(len(sizes)):
        curve(E, lines[i], list(fs[i]), list(ps[i]), log, f'curve {i}', keep)
    if slope:
        for k in range(2):
            E.eq(lines[-1][1][k], sx[k], 'slope abscissa')
            E.eq(lines[-1][2][k], sy[k], 'slope ordinate')


def both(E, n, n_fft, seg=None, moments=1, log='log2', entry='function', j2=None):
    """plot_psd: the Welch and the wavelet PSD."""
    x = E.array('x', n)
    P, S = E.mod('psd'), E.mod('signal')
    fs = 4.0
    snap = E.snapshot(x)
    if entry == 'function':
        lines = E.figure(lambda: P.plot_psd(x, fs, n_fft, seg, moments, log))
    else:
        s = S.Signal(x, fs, log)
        lines = E.figure(lambda: s.plot_psd(n_fft, seg, moments, j2))
    E.unchanged(x, snap, 'signal')
    E.check(len(lines) == 2, f'{len(lines)} curves')
    for i, (name, r) in enumerate((('Welch', P.welch_estimation(x, fs, n_fft, seg)), ('wavelet', P.wavelet_estimation(x, fs, moments)))):
        curve(E, lines[i], list(np.ravel(r.freq)), list(np.ravel(r.psd)), log, name)


def fractal(E, n, n_fft, band, moments=1, log='log2'):
    """plot_fractal: both PSDs and the spectral slope over its band."""
    x = E.array('x', n)
    P, S = E.mod('psd'), E.mod('signal')
    fs = 4.0
    s = S.Signal(x, fs, log)
    lines = E.figure(lambda: s.plot_fractal(moments, band, n_fft))
    E.check(len(lines) == 3, f'{len(lines)} curves')
    w = P.wavelet_estimation(x, fs, moments)
    for i, (name, r) in enumerate((('Welch', P.welch_estimation(x, fs, n_fft)), ('wavelet', w))):
        curve(E, lines[i], list(np.ravel(r.freq)), list(np.ravel(r.psd)), log, name)
    b = E.mod('fractal_analysis').estimate_beta(w.freq, w.psd, log=log, freq_band=band)
    beta, c = np.ravel(b.beta)[0], np.ravel(b.log_C)[0]
    x, y = lines[2][1], lines[2][2]
    f = [v for v in np.ravel(w.freq) if band[0] <= v <= band[1]]
    E.check(len(x) == len(y), 'slope line')
    lg = E.log2 if log == 'log2' else E.log
    xs = sorted(float(v) for v in x)
    E.check(abs(xs[0] - lg(min(f))) < 1e-9 and abs(xs[-1] - lg(max(f))) < 1e-9, 'the slope is drawn over its band')
    for u, v in zip(x, y):
        E.eq(np.ravel(v)[0] if isinstance(v, (list, np.ndarray)) else v, beta * u + c, 'slope line', atol=1e-9)


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    add(structure, counts=(6, 5, 4), q=(2.0,))
    add(structure, counts=(6, 5, 4), q=(2.0, -1.0, 1.0), j1=2)
    add(structure, counts=(7, 5, 4, 3), q=(1.0, 2.0, 3.0, 4.0, 5.0), j1=1, j2=3, weighted=False)
    add(structure, counts=(6, 5), q=(0.0, 2.0))
    add(structure, counts=(6, 5, 4), q=(-1.0, 0.0, 1.0, 2.0, 3.0))
    add(structure, counts=(6, 5), q=(-2.0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0), ignore=False)
    add(structure, counts=(6, 5, 4), q=(1.0, 2.0, 3.0), nrow=2, nan={1: [(0, 0)]})
    add(structure, counts=(6, 5, 4), q=(-1.0, 0.0, 1.0, 2.0), nrow=2)
    add(scaling, counts=(6, 5, 4), q=(-1.0, 0.0, 2.0))
    add(scaling, counts=(6, 5), q=(3.0, 1.0), j1=1)
    for M in (1, 2, 3, 4):
        add(cumulants, counts=(5, 4, 3), M=M, j1=1 + M % 2)
    add(cumulants, counts=(6, 5, 4, 3), M=3, j1=2, j2=3, nrow=2, weighted=False)
    add(cumulants, counts=(6, 5, 4), M=2, nan={2: [(1, 0)]}, nrow=1)
    add(spectrum, counts=(5, 4, 3), q=(1.0,))
    add(spectrum, counts=(5, 4), q=(-1.0, 0.0, 2.0), own=True)
    add(hmin, counts=(6, 5, 4))
    add(hmin, counts=(6, 5, 4, 3), j1=2, j2=3, weighted=False)
    add(hmin, counts=(5, 4, 3), nan={1: [(2, 0)]}, j1=1)
    add(bicumulants, counts=(4, 3), M=2)
    add(bicumulants, counts=(4, 4, 3), M=2, j1=2, leaders=True, weighted=False)
    add(bicumulants, counts=(4, 3), M=3)
    add(bicumulants, counts=(4, 3), M=1)
    add(bistructure, counts=(4, 3), q1=(0.0, 1.0, 2.0), q2=(0.0, 1.0, 2.0))
    add(bistructure, counts=(4, 4, 3), q1=(1.0, 2.0), q2=(-1.0, 0.0, 3.0), j1=2, weighted=False)
    add(bistructure, counts=(4, 3), q1=(1.0,), q2=(2.0, 1.0))
    add(bistructure, counts=(4, 3), q1=(2.0,), q2=(2.0,), leaders=True)
    add(logplot, sizes=(5,))
    add(logplot, sizes=(4, 3), log='log', zero=False)
    add(logplot, sizes=(6, 4), low=1.5)
    add(logplot, sizes=(4,), low='sym')
    add(logplot, sizes=(3, 2), low='sym', zero=False, log='log', slope=True)
    add(logplot, sizes=(4,), slope=True)
    add(both, n=24, n_fft=8)
    add(both, n=24, n_fft=4, seg=6, log='log')
    add(both, n=24, n_fft=8, entry='signal')
    add(both, n=24, n_fft=8, seg=4, entry='signal', log='log')
    add(fractal, n=40, n_fft=8, band=(0.2, 2))
    add(fractal, n=40, n_fft=8, band=(0.1, 0.8), log='log')
    if tier == 'thorough':
        add(structure, counts=(9, 7, 6, 5, 4), q=tuple(float(v) for v in range(-3, 8)), j1=2, j2=4)
        add(structure, counts=(6, 5, 4), q=(0.5, 0.0, 2.0), ignore=False, nrow=1)
        add(cumulants, counts=(6, 5, 4), M=5)
        add(spectrum, counts=(6, 5, 4), q=(-2.0, -1.0, 0.0, 1.0, 2.0))
        add(bicumulants, counts=(5, 4, 3), M=4, leaders=True)
        add(logplot, sizes=(5, 4), low='sym')
        add(both, n=40, n_fft=16, moments=2, entry='signal')
        add(fractal, n=60, n_fft=16, band=(0.05, 2), moments=2)
    return out
