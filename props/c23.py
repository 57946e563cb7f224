import math
from symnp.harness import Case
from . import ref

ASSUME = ['the least-squares solver behind sklearn is modelled by the normal equations; at least two distinct in-band frequencies']


def ols(E, xs, ys):
    n = len(xs)
    mx = sum(xs[1:], xs[0]) / n
    my = sum(ys[1:], ys[0]) / n
    sxx = sum(((x - mx) * (x - mx) for x in xs[1:]), (xs[0] - mx) * (xs[0] - mx))
    sxy = sum(((x - mx) * y for x, y in zip(xs[1:], ys[1:])), (xs[0] - mx) * ys[0])
    a = sxy / sxx
    return a, my - a * mx


def lg(E, log, v):
    return E.log2(v) if log == 'log2' else E.log(v)


def fixed(E, freqs, band, log='log2', col=False, default=False):
    """Concrete frequencies and band, arbitrary PSD."""
    p = E.array('p', (len(freqs), 1) if col else len(freqs), 'pos')
    F = E.mod('fractal_analysis')
    f = E.arr(list(freqs))
    r = F.estimate_beta(f, p) if default else F.estimate_beta(f, p, band, log)
    lo, hi = (0.01, 2) if default else band
    ix = [i for i, v in enumerate(freqs) if lo <= v <= hi and v != 0]
    xs = [lg(E, log, freqs[i]) for i in ix]
    ys = [lg(E, log, p[i, 0] if col else p[i]) for i in ix]
    a, b = ols(E, xs, ys)
    E.eq(r.beta if not col else r.beta[0], a, 'slope')
    E.eq(r.log_C if not col else r.log_C[0], b, 'intercept')
    E.eq([v for v in E.np.ravel(r.freq)], xs, 'fitted frequencies')


def symbolic(E, n, log='log2', zero=False, law=False):
    """Arbitrary band edges (possibly equal to a frequency) over increasing frequencies."""
    freqs = [0.25 * 2.0 ** i * (1 + 0.1 * i) for i in range(n)]
    if zero:
        freqs = [0.0] + freqs
    lo = E.real('lo', 'real', -1.0, freqs[-1] + 1, special=tuple(freqs))
    hi = E.real('hi', 'real', 0.0, freqs[-1] + 1, special=tuple(freqs))
    inside = [v for v in freqs if E.decide(lo <= v) and E.decide(v <= hi)]
    nz = [v for v in inside if v != 0]
    if len(nz) < 2:
        E.assume(False)
        return
    if law:
        C, s = E.real('C', 'pos'), E.real('s', 'real', -5, 5)
        ps = [C * E.pw(v, s) if v in nz else E.real(f'p{i}', 'pos') for i, v in enumerate(freqs)]
    else:
        ps = [E.real(f'p{i}', 'pos') for i in range(len(freqs))]
    r = E.mod('fractal_analysis').estimate_beta(E.arr(freqs), E.arr(ps), (lo, hi), log)
    if law:
        E.eq(r.beta, s, 'slope of a power law', atol=1e-7)
        E.eq(r.log_C, lg(E, log, C), 'intercept of a power law', atol=1e-7)
        return
    a, b = ols(E, [lg(E, log, v) for v in nz], [lg(E, log, ps[freqs.index(v)]) for v in nz])
    E.eq(r.beta, a, 'slope', atol=1e-9)
    E.eq(r.log_C, b, 'intercept', atol=1e-9)
    E.check(len(E.np.ravel(r.freq)) == len(nz), 'exactly the in-band frequencies')


def base(E, n):
    """The slope does not depend on the log base, the intercept is converted."""
    freqs = [0.5 + 0.7 * i * i for i in range(n)]
    p = E.array('p', n, 'pos')
    F = E.mod('fractal_analysis').estimate_beta
    a, b = F(E.arr(freqs), p, (0, 1e9), 'log2'), F(E.arr(freqs), p, (0, 1e9), 'log')
    E.eq(a.beta, b.beta, 'slope in both bases', atol=1e-9)
    E.eq(a.log_C * math.log(2), b.log_C, 'intercept in both bases', atol=1e-9)


def any_freq(E, n, band=(0.1, 50.0), log='log2'):
    """Arbitrary (distinct) frequencies, all in band."""
    fs = [E.real(f'f{i}', 'pos', band[0], band[1]) for i in range(n)]
    for i in range(n - 1):
        E.assume(fs[i] < fs[i + 1])
        E.assume(fs[i] * (1 + 1e-3) < fs[i + 1])
    p = E.array('p', n, 'pos')
    r = E.mod('fractal_analysis').estimate_beta(E.arr(fs), p, band, log)
    a, b = ols(E, [lg(E, log, v) for v in fs], [lg(E, log, v) for v in p])
    E.eq(r.beta, a, 'slope', tol=1e-6)
    E.eq(r.log_C, b, 'intercept', atol=1e-5)


def outside(E, freqs, band, log='log2'):
    """Values outside the band have no influence."""
    p = [E.real(f'p{i}', 'pos') for i in range(len(freqs))]
    q = [v if band[0] <= f <= band[1] and f != 0 else E.real(f'z{i}', 'nonneg') for i, (v, f) in enumerate(zip(p, freqs))]
    F = E.mod('fractal_analysis').estimate_beta
    a, b = F(E.arr(list(freqs)), E.arr(p), band, log), F(E.arr(list(freqs)), E.arr(q), band, log)
    E.eq(a.beta, b.beta, 'slope')
    E.eq(a.log_C, b.log_C, 'intercept')
    E.eq(a.freq, b.freq, 'frequencies')


def whole(E, n, fs, band, n_moments=1, log='log2', via=False):
    """fractal_analysis of a signal: the slope of its wavelet PSD."""
    x = E.array('x', (n, 1))
    w = E.mod('psd').wavelet_estimation(x, fs, n_moments)
    if via:
        r = E.mod('signal').Signal(x, fs, log=log).fractal_analysis(n_moments, band)
    else:
        r = E.mod('fractal_analysis').fractal_analysis(x, fs, n_moments, band, log)
    ix = [i for i in range(len(w.freq)) if band[0] <= w.freq[i] <= band[1]]
    a, b = ols(E, [lg(E, log, float(w.freq[i])) for i in ix], [lg(E, log, w.psd[i, 0]) for i in ix])
    E.eq(r.beta[0], a, 'slope')
    E.eq(r.log_C[0], b, 'intercept')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    F5 = (0.25, 0.5, 1.0, 2.0, 4.0)
    add(fixed, freqs=F5, band=(0.5, 2.0))
    add(fixed, freqs=F5, band=(0.3, 3.9), log='log')
    add(fixed, freqs=(0.0,) + F5, band=(0, 10))
    add(fixed, freqs=(0.0,) + F5, band=(0.0, 4.0), log='log')
    add(fixed, freqs=(0.0, 0.005, 0.01, 0.3, 2.0, 2.1), band=None, default=True)
    add(fixed, freqs=(4.0, 1.0, 0.5, 3.0, 0.1), band=(0.2, 4.0), col=True)
    add(fixed, freqs=(0.7, 1.1, 1.3, 2.9, 8.5, 20.0, 33.0), band=(1.1, 20.0))
    add(symbolic, n=3)
    add(symbolic, n=4, log='log')
    add(symbolic, n=3, zero=True)
    add(symbolic, n=4, law=True)
    add(symbolic, n=3, law=True, zero=True, log='log')
    add(base, n=4)
    add(any_freq, n=2)
    add(any_freq, n=3)
    add(any_freq, n=3, log='log')
    add(outside, freqs=(0.0,) + F5, band=(0.5, 2.0))
    add(outside, freqs=(0.0,) + F5, band=(0.0, 1.9), log='log')
    add(whole, n=40, fs=8.0, band=(0.1, 4.0))
    add(whole, n=60, fs=100.0, band=(1.0, 40.0), n_moments=2, log='log')
    add(whole, n=44, fs=16.0, band=(1.5, 6.0), via=True)
    if tier == 'thorough':
        add(symbolic, n=6)
        add(symbolic, n=7, law=True, zero=True)
        add(any_freq, n=4)
        add(base, n=8)
        add(fixed, freqs=tuple(i / 8 for i in range(20)), band=(0.5, 2.0))
        add(whole, n=200, fs=8.0, band=(0.01, 2.0))
    return out
