import math
from symnp.harness import Case
from . import ref


def define(E, n, n_moments, nrep=1, flat=False, j2=None, fs=None, miss=(), live=None):
    x = E.array('x', n if flat else (n, nrep), nan=miss, live=live)
    f = E.real('fs', 'pos') if fs is None else fs
    P = E.mod('psd')
    r = P.wavelet_estimation(x, f, n_moments, *(() if j2 is None else (j2,)))
    w = ref.analysis(E, x, None, f'db{n_moments}', 1, j2, 0.5, 1, False)
    E.check(len(r.psd) == len(w.coefs) == len(r.freq), 'one value and one frequency per analysed scale')
    for i, j in enumerate(w.coefs):
        E.eq(r.freq[i], 0.75 * f / 2 ** j, f'frequency of scale {j}')
        for c in range(1 if flat else nrep):
            E.eq(r.psd[i, c], ref.mean(E, [t * t for t in ref.valid(E, w.coefs[j], c)]), f'PSD at scale {j}')


def scaling(E, n, n_moments, nrep=1):
    """Amplitude and sampling frequency."""
    x = E.array('x', (n, nrep))
    a = E.real('a', 'nz')
    f, g = E.real('f', 'pos'), E.real('g', 'pos')
    W = E.mod('psd').wavelet_estimation
    r, s = W(x, f, n_moments), W(a * x, g, n_moments)
    E.eq(s.psd, a * a * r.psd, 'PSD of a scaled signal')
    E.eq(s.freq * f, r.freq * g, 'frequency axis')


def additive(E, n, n_moments):
    """Energy: the PSDs of x + y and x - y sum to twice those of x and y."""
    x, y = E.array('x', (n, 1)), E.array('y', (n, 1))
    W = E.mod('psd').wavelet_estimation
    u, v, s, d = (W(z, 1.0, n_moments).psd for z in (x, y, x + y, x - y))
    E.eq(s + d, 2 * u + 2 * v, 'parallelogram law')


def via(E, n, n_moments, fs=50.0, miss=()):
    """The same estimate through the signal object and the fractal analysis."""
    x = E.array('x', (n, 1), nan=miss)
    r = E.mod('psd').wavelet_estimation(x, fs, n_moments)
    s = E.mod('signal').Signal(x, fs).estimate_wavelet_psd(n_moments)
    E.eq(s.psd, r.psd, 'PSD of a signal object')
    E.eq(s.freq, r.freq, 'frequencies of a signal object')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k), wide=True))
    add(define, n=24, n_moments=1)
    add(define, n=41, n_moments=1, nrep=2, fs=100.0)
    add(define, n=60, n_moments=2, flat=True)
    add(define, n=61, n_moments=2, j2=2)
    add(define, n=57, n_moments=3)
    add(define, n=120, n_moments=4, fs=0.5)
    add(define, n=97, n_moments=6, flat=True)
    add(define, n=50, n_moments=2, nrep=3)
    add(define, n=48, n_moments=1, miss=((20, 0),))
    add(define, n=60, n_moments=1, nrep=2, miss=((20, 0), (41, 1)), j2=3)
    add(scaling, n=24, n_moments=1)
    add(scaling, n=40, n_moments=2, nrep=2)
    add(additive, n=24, n_moments=1)
    add(additive, n=40, n_moments=2)
    add(via, n=24, n_moments=1)
    add(via, n=50, n_moments=3, miss=((0, 0),))
    add(define, n=800, n_moments=1, live=(400, 401))
    add(define, n=700, n_moments=3, live=(300, 350), nrep=2)
    add(define, n=1100, n_moments=5, live=(501,), flat=True)
    add(define, n=260, n_moments=10, live=(101,))
    add(define, n=60, n_moments=1, nrep=6, fs=100.0)
    if tier == 'thorough':
        add(define, n=200, n_moments=1)
        add(define, n=220, n_moments=2, nrep=2)
        add(define, n=240, n_moments=5)
        add(define, n=300, n_moments=8)
        add(define, n=200, n_moments=10)
        add(scaling, n=90, n_moments=3)
        add(additive, n=70, n_moments=3)
        add(via, n=100, n_moments=2)
    return out
