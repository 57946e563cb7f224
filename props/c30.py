import math

from symnp.harness import Case

ASSUME = ['the signal is at least as long as a segment', 'rounding of the Fourier transform below 1e-9 relative is ignored']


def reference(E, x, n_fft, seg):
    """4 x one-sided density per radian of Hamming-windowed half-overlapping segments, averaged."""
    win = [0.54 - 0.46 * math.cos(2 * math.pi * i / seg) for i in range(seg)]
    power = sum(w * w for w in win)
    step = seg - seg // 2
    starts = range(0, len(x) - seg + 1, step)
    out = []
    for k in range(n_fft // 2 + 1):
        tot = 0.0
        for s in starts:
            re = im = 0.0
            for i in range(seg):
                # exact zeros and units of the trigonometric functions
                re = re + win[i] * snap(math.cos(2 * math.pi * ((k * i) % n_fft) / n_fft)) * x[s + i]
                im = im + win[i] * snap(math.sin(2 * math.pi * ((k * i) % n_fft) / n_fft)) * x[s + i]
            tot = tot + re * re + im * im
        one = 1 if k == 0 or (n_fft % 2 == 0 and k == n_fft // 2) else 2
        out.append(4 * one * tot / (len(starts) * power * 2 * math.pi))
    return out


def snap(v):
    return float(round(v)) if abs(v - round(v)) < 1e-12 else v


def est(E, x, fs, n_fft, seg, how):
    P = E.mod('psd')
    if how == 'default':
        return P.welch_estimation(x, fs, n_fft)
    if how == 'kw':
        return P.welch_estimation(x, fs, n_fft=n_fft, seg_size=seg)
    return P.welch_estimation(x, fs, n_fft, seg)


def definition(E, N, n_fft, seg=None, how='pos'):
    x = E.array('x', N)
    fs = E.real('fs', 'pos', 0.01, 1e4)
    snapx = E.snapshot(x)
    f, p = est(E, x, fs, n_fft, seg, how)
    E.unchanged(x, snapx, 'signal')
    s = n_fft if seg is None else seg
    m = max(n_fft, s)
    E.check(f.shape == p.shape == (m // 2 + 1,), f'shapes {f.shape} {p.shape}')
    want = reference(E, x, m, s)
    for k in range(m // 2 + 1):
        E.eq(f[k], fs * k / m, f'frequency {k}')
        E.eq(p[k], want[k], f'density {k}', atol=1e-9)


def named(E, N, n_fft):
    """The result names its two fields."""
    x = E.array('x', N)
    r = est(E, x, 2.0, n_fft, None, 'default')
    E.eq(r.freq, r[0], 'freq')
    E.eq(r.psd, r[1], 'psd')


def scaling(E, N, n_fft, seg=None):
    x = E.array('x', N)
    a = E.real('a', 'nz', -50, 50)
    f, p = est(E, x, 1.0, n_fft, seg, 'pos')
    g, q = est(E, E.arr([a * x[i] for i in range(N)]), 1.0, n_fft, seg, 'pos')
    E.eq(g, f, 'frequencies')
    for k in range(len(p)):
        E.eq(q[k], a * a * p[k], f'density {k}', atol=1e-9)


def band(E, N, n_fft, seg=None):
    """The sampling frequency only rescales the axis."""
    x = E.array('x', N)
    fs, gs = E.real('fs', 'pos', 0.1, 10), E.real('gs', 'pos', 0.1, 10)
    f, p = est(E, x, fs, n_fft, seg, 'pos')
    g, q = est(E, x, gs, n_fft, seg, 'pos')
    for k in range(len(p)):
        E.eq(q[k], p[k], f'density {k}')
        E.eq(g[k] * fs, f[k] * gs, f'frequency {k}')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    add(definition, N=4, n_fft=4, how='default')
    add(definition, N=10, n_fft=4, how='default')
    add(definition, N=9, n_fft=8, seg=4)
    add(definition, N=8, n_fft=8, seg=6, how='kw')
    add(definition, N=9, n_fft=6, seg=8)
    add(definition, N=12, n_fft=2, seg=6, how='kw')
    add(definition, N=8, n_fft=5, how='default')
    add(definition, N=9, n_fft=7, seg=4)
    add(definition, N=10, n_fft=4, seg=5)
    add(definition, N=11, n_fft=8, seg=5)
    add(definition, N=16, n_fft=8, how='default')
    add(definition, N=13, n_fft=8, seg=8)
    add(named, N=8, n_fft=4)
    add(scaling, N=9, n_fft=4)
    add(scaling, N=8, n_fft=6, seg=8)
    add(band, N=8, n_fft=4)
    add(band, N=8, n_fft=5, seg=4)
    if tier == 'thorough':
        add(definition, N=32, n_fft=16, how='default')
        add(definition, N=40, n_fft=12, seg=10)
        add(definition, N=25, n_fft=9, seg=16)
        add(definition, N=21, n_fft=11, seg=7)
        add(scaling, N=24, n_fft=16, seg=8)
    return out
