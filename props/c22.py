import math
from symnp.harness import Case
from . import ref

ASSUME = ['bands whose edges fall exactly on the frequency of a scale are decided on the exact real value '
          '(binary64 evaluation may round such an edge either way)']


def inverse(E, lo=-30, hi=30):
    U = E.mod('utils')
    fs, f = E.real('fs', 'pos'), E.real('f', 'pos')
    s = E.real('s', 'real', lo, hi)
    E.eq(U.scale2freq(U.freq2scale(f, fs), fs), f, 'frequency -> scale -> frequency')
    E.eq(U.freq2scale(U.scale2freq(s, fs), fs), s, 'scale -> frequency -> scale', atol=1e-9)
    E.eq(U.scale2freq(s + 1, fs) * 2, U.scale2freq(s, fs), 'octave')
    E.eq(U.freq2scale(f / 2, fs), U.freq2scale(f, fs) + 1, 'octave', atol=1e-9)
    E.eq(U.scale2freq(s, fs), 0.75 * fs * E.pw(2.0, -s), 'frequency of a scale')
    # one octave per scale, whatever the unit of frequency
    c = E.real('c', 'pos')
    E.eq(U.freq2scale(c * f, c * fs), U.freq2scale(f, fs), 'unit of frequency', atol=1e-9)
    E.eq(U.scale2freq(s, c * fs), c * U.scale2freq(s, fs), 'unit of frequency')


def vectors(E, n=3):
    """Arrays are converted element by element."""
    U = E.mod('utils')
    fs = E.real('fs', 'pos')
    f = E.array('f', n, 'pos')
    s = E.array('s', n, 'real', lo=-20, hi=20)
    a = U.freq2scale(f, fs)
    b = U.scale2freq(s, fs)
    E.check(tuple(a.shape) == (n,) and tuple(b.shape) == (n,), 'shape')
    for i in range(n):
        E.eq(a[i], U.freq2scale(f[i], fs), 'element-wise', atol=1e-9)
        E.eq(b[i], U.scale2freq(s[i], fs), 'element-wise')


def integers(E, js, fs=None):
    """Integer scales, as numpy integers, python integers and floats."""
    U = E.mod('utils')
    f = E.real('fs', 'pos') if fs is None else fs
    for j in js:
        E.eq(U.scale2freq(float(j), f), 0.75 * f / 2.0 ** j, f'frequency of scale {j}')
        if j >= 0:
            E.eq(U.scale2freq(j, f), 0.75 * f / 2.0 ** j, f'frequency of integer scale {j}')
        E.eq(U.freq2scale(0.75 * f / 2.0 ** j, f), float(j), f'scale of the frequency of scale {j}', atol=1e-9)


def axis(E, n, n_moments):
    """Agreement with the frequency axis of the wavelet PSD."""
    U = E.mod('utils')
    fs = E.real('fs', 'pos')
    r = E.mod('psd').wavelet_estimation(E.array('x', (n, 1)), fs, n_moments)
    for i in range(len(r.freq)):
        E.eq(U.scale2freq(float(i + 1), fs), r.freq[i], f'frequency of scale {i + 1}')
        E.eq(U.freq2scale(r.freq[i], fs), float(i + 1), f'scale of frequency {i}', atol=1e-9)


def band(E, lo, hi, top, numeric=False):
    """A band with edges between 2^-hi.. and 2^-lo of the top frequency selects exactly the scales inside."""
    U = E.mod('utils')
    fs = E.real('fs', 'pos', 0.001, 10000)
    u = E.real('u', 'pos', 2.0 ** -hi, 2.0 ** -lo)      # f = 0.75 fs u
    v = E.real('v', 'pos', 2.0 ** -hi, 2.0 ** -lo)
    E.assume(u < v)
    for j in range(lo, hi + 1):
        # edges exactly on a scale are covered by `edges`
        for t in (u, v):
            if E.sym:
                E.assume(t != 2.0 ** -j)
            else:
                E.assume(abs(t * 2.0 ** j - 1) > 1e-9)
    j1, j2 = U.fband2scale((0.75 * fs * u, 0.75 * fs * v), fs)
    E.check(isinstance(j1, int) and isinstance(j2, int), 'integer scales')
    for j in range(lo, hi + 1):
        inside = E.decide(u <= 2.0 ** -j) and E.decide(2.0 ** -j <= v)
        E.check((j1 <= j <= j2) == inside, f'scale {j} is selected exactly when its frequency is in the band')


def edges(E, a, b, form=tuple):
    """Band edges on the exact frequencies of two scales: both are selected."""
    U = E.mod('utils')
    fs = E.real('fs', 'pos')
    for f in (1.0, 64.0, 3.0, 100.0) if not E.sym else (fs,):
        lo, hi = U.scale2freq(float(b), f), U.scale2freq(float(a), f)
        if not E.sym:
            # keep exactly representable edges only
            E.assume(True)
        j1, j2 = U.fband2scale(form((lo, hi)), f)
        E.check(j1 == a and j2 == b, f'band of scales {a}..{b}')


def cases(tier):
    out = []

    def add(f, **k):
        zero = k.pop('zero', 'assume')
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k),
                        bound=str(k), zero=zero))
    add(inverse)
    add(vectors, n=3)
    add(integers, js=(0, 1, 2, 5, 10, 20))
    add(integers, js=(-3, 0, 7, 30), fs=128.0)
    add(axis, n=40, n_moments=1)
    add(axis, n=60, n_moments=2)
    add(band, lo=0, hi=3, top=4)
    add(band, lo=-2, hi=2, top=4)
    add(band, lo=4, hi=8, top=4)
    for a, b in ((1, 4), (3, 3), (0, 10), (5, 6)):
        add(edges, a=a, b=b)
    if tier == 'thorough':
        add(band, lo=0, hi=8, top=9)
        add(band, lo=10, hi=18, top=9)
        add(integers, js=tuple(range(0, 40)))
        add(axis, n=200, n_moments=1)
        add(axis, n=200, n_moments=3)
    return out
