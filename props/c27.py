import inspect
import math

import numpy as np

from symnp.harness import Case
from . import ref

ASSUME = ['histories of at most 3 (quick) or 4 (thorough) calls, of which at most one fails; the fields data, fs and log of '
          'the object are not reassigned by the user',
          'history cases: the numerical back ends (wavelet_analysis, wavelet_estimation, welch_estimation, estimate_beta, '
          'mf_analysis, compute_hurst, estimate_hmin) are uninterpreted functions of all their arguments; counterexamples are '
          'replayed with the real ones', 'numeric cases: the real back ends on symbolic data']

SEQ = [0]


class Term:
    """The value of an uninterpreted function."""

    def __init__(self, name, args):
        self.__dict__['_n'], self.__dict__['_a'], self.__dict__['_kids'] = name, args, {}

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return self._kids.setdefault(k, Term('.' + k, (self,)))

    def __setattr__(self, k, v):
        raise TypeError('an uninterpreted value was modified')

    def _asdict(self):
        return {'term': self}

    def __iter__(self):
        for i in range(2):
            yield self._kids.setdefault(i, Term(f'[{i}]', (self,)))

    def __getitem__(self, k):
        return self._kids.setdefault(k, Term(f'[{k!r}]', (self,)))


class Backend:
    """Uninterpreted stand-in for a function: a term keyed by its (bound, defaulted) arguments."""

    def __init__(self, name, sig):
        self.name, self.sig = name, sig

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)
        b.apply_defaults()
        args = dict(b.arguments)
        if args.get('wt_name') == 'nosuch' or args.get('n_moments') == 99:
            raise ValueError('Unknown wavelet name')
        return Term(self.name, tuple((n, freeze(v)) for n, v in args.items()))


def freeze(v):
    """Arguments are taken as they are at the time of the call."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    return v


BACK = (('wavelet', 'wavelet_analysis'), ('psd', 'wavelet_estimation'), ('psd', 'welch_estimation'),
        ('fractal_analysis', 'estimate_beta'), ('mfa', 'mf_analysis'), ('estimation', 'compute_hurst'),
        ('estimation', 'estimate_hmin'))


def uninterpreted(E):
    """Only symbolically: replays use the real functions."""
    if not E.sym:
        return
    for m, n in BACK:
        true = getattr(E.mod(m), n)
        new = Backend(n, inspect.signature(true))
        for mod in ('wavelet', 'psd', 'fractal_analysis', 'mfa', 'estimation', 'signal'):
            if E.mod(mod).__dict__.get(n) is true:
                E.stub(mod, n, new)


def same(a, b):
    """Equality of results (a symbolic condition in general)."""
    if isinstance(a, Term) or isinstance(b, Term):
        if not (isinstance(a, Term) and isinstance(b, Term)) or a._n != b._n:
            return False
        return a is b or same(a._a, b._a)
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a is b or (type(a) is type(b) and a == b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype != object and b.dtype != object:
            return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))
        return conj([same(x, y) for x, y in zip(a.ravel(), b.ravel())])
    if isinstance(a, dict):
        return list(a) == list(b) and conj([same(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and conj([same(x, y) for x, y in zip(a, b)])
    if hasattr(a, 'p') or hasattr(b, 'p'):
        return a == b
    if isinstance(a, (int, float, np.number)):
        return isinstance(b, (int, float, np.number)) and \
            (a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b)))
    if hasattr(a, '__dict__') and type(a) is type(b):
        return conj([same(v, vars(b).get(k)) for k, v in vars(a).items()])
    return a == b


def conj(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is not True:
            r = x if r is True else r & x
    return r


# ---- parameters of one call; `vary` names the ones that are free

def choose(E, name, opts):
    if len(opts) == 1:
        return opts[0]
    i = E.real(name, 'int', 0, len(opts) - 1)
    for k in range(len(opts) - 1):
        if E.decide(i == k):
            return opts[k]
    return opts[-1]


def integer(E, name, lo, hi):
    return E.real(name, 'int', lo, hi)


def p_wavelet(E, t, vary):
    d = dict(j1=1, j2=3, normalization=1, gamint=0.0, weighted=True, wt_name='db2', p_exp=None)
    if 'j1' in vary:
        d['j1'] = integer(E, t + 'j1', 1, 2)
    if 'j2' in vary:
        d['j2'] = integer(E, t + 'j2', 3, 4)
    if 'normalization' in vary:
        d['normalization'] = integer(E, t + 'norm', 1, 3)
    if 'gamint' in vary:
        d['gamint'] = E.real(t + 'gamint', 'real', 0, 2, special=(0.0, 1.0))
    if 'weighted' in vary:
        d['weighted'] = choose(E, t + 'weighted', (True, False))
    if 'wt_name' in vary:
        d['wt_name'] = choose(E, t + 'wt', ('db2', 'db3', 'nosuch'))
    if 'p_exp' in vary:
        d['p_exp'] = choose(E, t + 'p', (None, 2, math.inf))
    return d


def p_mf(E, t, vary):
    d = dict(q=[2.0], n_cumul=2)
    if 'q' in vary:
        form = choose(E, t + 'qform', ('one', 'two', 'array'))
        v = E.real(t + 'q', 'real', -1, 4, special=(2.0, 1.0))
        d['q'] = [v] if form == 'one' else ([v, 3.0] if form == 'two' else E.arr([v, 3.0]))
    if 'n_cumul' in vary:
        d['n_cumul'] = integer(E, t + 'n', 1, 3) if not E.sym or 'sym' in vary else choose(E, t + 'n', (1, 2, 3))
    if 'n2' in vary:
        d['n_cumul'] = choose(E, t + 'n2', (1, 2))
    if 'save' in vary:
        d['save'] = choose(E, t + 'save', (True, False))
    return d


def p_psd(E, t, vary):
    d = {}
    if 'n_moments' in vary:
        d['n_moments'] = integer(E, t + 'nm', 1, 3) if E.sym else choose(E, t + 'nm0', (1, 2, 3))
        if 'bad' in vary and E.decide(E.real(t + 'bad', 'int', 0, 1) == 1):
            d['n_moments'] = 99
    if 'psd_j2' in vary:
        d['j2'] = choose(E, t + 'pj', (None, 2, 3))
    return d


def p_welch(E, t, vary):
    d = dict(n_fft=16)
    if 'n_fft' in vary:
        d['n_fft'] = choose(E, t + 'nf', (8, 16))
    if 'seg' in vary:
        d['seg_size'] = choose(E, t + 'seg', (None, 8))
    return d


def p_fractal(E, t, vary):
    d = {k: v for k, v in p_psd(E, t, vary).items() if k != 'j2'}
    if 'band' in vary:
        d['freq_band'] = (E.real(t + 'lo', 'real', 0.01, 0.05), E.real(t + 'hi', 'real', 0.5, 1))
    return d


def p_full(E, t, vary):
    return {**p_wavelet(E, t, vary), **p_mf(E, t, vary)}


OPS = {
    'wavelet_analysis': p_wavelet, 'mf_analysis': p_mf, 'mf_analysis_full': p_full, 'hurst': lambda E, t, v: {},
    'hmin': lambda E, t, v: {}, 'estimate_wavelet_psd': p_psd, 'estimate_welch_psd': p_welch,
    'fractal_analysis': p_fractal,
}
NEEDS = ('mf_analysis', 'hurst', 'hmin')
BUILDS = ('wavelet_analysis', 'mf_analysis_full')


def new(E, x):
    return E.mod('signal').Signal(x, 1.0)


def outcome(f):
    """The result of a call, or the error it raises."""
    try:
        return f(), None
    except (ValueError, AttributeError, TypeError, RuntimeError) as e:
        return None, type(e)


def call(s, op, kw):
    return outcome(lambda: getattr(s, op)(**kw))


def step(E, x, s, op, kw, wt, msg):
    """Performs a call and compares it with a fresh object; returns the wavelet analysis now in force."""
    got, err = call(s, op, {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()})
    f = new(E, x)
    if op in NEEDS and wt is not None:
        f.wavelet_analysis(**wt)
    want, werr = call(f, op, kw)
    if op in NEEDS and wt is None:
        E.check(err is not None, f'{msg}: no error without a wavelet analysis')
        return wt
    if (err is None) != (werr is None):
        E.check(False, f'{msg}: ' + (f'raises {err.__name__}' if err else 'no error where a new object raises one'))
    if err is None:
        E.check(same(got, want), f'{msg} differs from the same call on a new object')
        if op in BUILDS:
            wt = {k: v for k, v in kw.items() if k not in ('q', 'n_cumul', 'save')}
    return wt


def stored(E, s, x, wt, msg):
    """Stored parameters and results belong together."""
    if wt is not None:
        E.check(s.wt_param is not None and s.wt_transform is not None, f'{msg}: wavelet analysis kept')
        E.check(conj([same(getattr(s.wt_param, k), v) for k, v in wt.items()]),
                f'{msg}: stored parameters of the wavelet analysis')
        f = new(E, x)
        E.check(same(s.wt_transform, f.wavelet_analysis(**wt)), f'{msg}: stored transform')
    for res, par, op in (('wt_psd', 'wt_psd_param', 'estimate_wavelet_psd'), ('welch_psd', 'welch_param', 'estimate_welch_psd'),
                         ('fractal', 'fractal_param', 'fractal_analysis')):
        r, p = getattr(s, res), getattr(s, par)
        if r is not None:
            f = new(E, x)
            E.check(p is not None, f'{msg}: {par}')
            E.check(same(r, getattr(f, op)(**p._asdict())), f'{msg}: {res} is not the result of {par}')


def history(E, first, ops, vary, length, n=64):
    """Every history of `length` calls whose first is `first`, with free parameters."""
    uninterpreted(E)
    x = E.array('x', 2 if E.sym else n)
    s = new(E, x)
    snap = E.snapshot(x)
    wt, done = None, []
    for i in range(length):
        op = first if i == 0 else choose(E, f'op{i}', ops)
        done.append(op)
        kw = OPS[op](E, f'c{i}', vary)
        wt = step(E, x, s, op, kw, wt, ' > '.join(done))
    stored(E, s, x, wt, ' > '.join(done))
    E.check(same(x, snap), 'data modified')


def numeric(E, calls, n=40):
    """A given history with the real back ends on symbolic data."""
    x = E.array('x', n)
    ref.opaque_leaders(E)
    s = new(E, x)
    wt = None
    for i, (op, kw) in enumerate(calls):
        msg = f'call {i}, {op}'
        got, err = call(s, op, kw)
        f = new(E, x)
        if op in NEEDS and wt is not None:
            f.wavelet_analysis(**wt)
        if op in NEEDS and wt is None:
            E.check(err is not None, f'{msg}: no error without a wavelet analysis')
            continue
        E.check(err is None, f'{msg}: {err}')
        want = getattr(f, op)(**kw)
        if op in BUILDS:
            wt = {k: v for k, v in kw.items() if k not in ('q', 'n_cumul', 'save')}
            for k, v in dict(j1=1, j2=10, normalization=1, gamint=0.0, weighted=True, wt_name='db3', p_exp=None).items():
                wt.setdefault(k, v)
        if op.startswith('plot'):
            continue
        deep(E, got, want, msg)


def deep(E, a, b, msg, seen=0):
    """a and b hold the same values, field by field."""
    if isinstance(b, np.ndarray) or hasattr(b, 'p') or isinstance(b, (float, int, np.number)) and not isinstance(b, bool):
        E.eq(a, b, msg)
    elif isinstance(b, dict):
        E.check(list(a) == list(b), f'{msg}: keys')
        for k in b:
            deep(E, a[k], b[k], f'{msg}[{k}]', seen + 1)
    elif b is None or isinstance(b, (str, bool)):
        E.check(a == b if b is not None else a is None, msg)
    elif isinstance(b, (list, tuple)):
        E.check(len(a) == len(b), f'{msg}: length')
        for i, (u, v) in enumerate(zip(a, b)):
            deep(E, u, v, f'{msg}[{i}]', seen + 1)
    elif hasattr(b, '__dict__') and not callable(b) and seen < 6:
        for k, v in vars(b).items():
            deep(E, getattr(a, k), v, f'{msg}.{k}', seen + 1)


def mutable_q(E, kind):
    """Changing the exponents in place between two calls is a change of parameters."""
    x = E.array('x', 24)
    q1, q2 = E.real('q1', 'real', 0.5, 3), E.real('q2', 'real', 0.5, 3)
    E.assume(q1 + 0.01 < q2)
    w = dict(j1=1, j2=2, normalization=1, gamint=0.0, weighted=True, wt_name='db1', p_exp=None)
    s = new(E, x)
    s.wavelet_analysis(**w)
    q = [q1] if kind == 'list' else E.arr([q1])
    s.mf_analysis(q, 1)
    q[0] = q2
    got = s.mf_analysis(q, 1)
    f = new(E, x)
    f.wavelet_analysis(**w)
    want = f.mf_analysis([q2] if kind == 'list' else E.arr([q2]), 1)
    E.eq(got.dwt.structure.zeta, want.dwt.structure.zeta, 'zeta after the exponents were changed in place')


def difference(E, n=40):
    """psd_difference works on what is stored and disturbs neither object."""
    x, y = E.array('x', n), E.array('y', n // 2)
    s, o = new(E, x), new(E, y)
    E.check(outcome(lambda: s.psd_difference(o))[1] is not None, 'no error without PSDs')
    a = s.estimate_wavelet_psd(1)
    b = o.estimate_wavelet_psd(1)
    sa, sb = E.snapshot(a.psd), E.snapshot(b.psd)
    d = s.psd_difference(o)
    E.check(len(d.wt_psd.freq) == len(b.freq) == len(a.freq) - 1, 'common frequencies')
    for i in range(len(b.freq)):
        m = [k for k in range(len(b.freq)) if abs(float(d.wt_psd.freq[i]) - float(a.freq[k])) < 1e-12]
        E.check(len(m) == 1, f'frequency {i}')
        E.eq(np.ravel(d.wt_psd.psd[i])[0], np.ravel(a.psd[m[0]])[0] - np.ravel(b.psd[m[0]])[0], f'difference {i}')
    E.unchanged(a.psd, sa, 'PSD of the first')
    E.unchanged(b.psd, sb, 'PSD of the second')
    deep(E, s.estimate_wavelet_psd(1), new(E, x).estimate_wavelet_psd(1), 'PSD afterwards')


W = dict(j1=1, j2=2, normalization=1, gamint=0.0, weighted=True, wt_name='db1', p_exp=None)
HIST = {
    'psd between': [('wavelet_analysis', W), ('estimate_wavelet_psd', dict(n_moments=1)), ('hurst', {}), ('hmin', {}),
                    ('mf_analysis', dict(q=[2.0, 1.0], n_cumul=2))],
    'other wavelet': [('wavelet_analysis', W), ('mf_analysis', dict(q=[2.0], n_cumul=1)),
                      ('wavelet_analysis', {**W, 'gamint': 1.0}), ('mf_analysis', dict(q=[2.0], n_cumul=1)),
                      ('wavelet_analysis', W), ('mf_analysis', dict(q=[2.0], n_cumul=1)), ('hurst', {})],
    'moments': [('estimate_wavelet_psd', dict(n_moments=1)), ('fractal_analysis', dict(n_moments=1, freq_band=(0.05, 0.5))),
                ('fractal_analysis', dict(n_moments=1, freq_band=(0.15, 0.5))), ('estimate_wavelet_psd', dict(n_moments=1, j2=2)),
                ('fractal_analysis', dict(n_moments=1, freq_band=(0.05, 0.5)))],
    'unsaved': [('mf_analysis_full', dict(j2=2, wt_name='db1', q=[1.0], n_cumul=1, save=False)),
                ('mf_analysis_full', dict(j2=2, wt_name='db1', q=[1.0], n_cumul=2)),
                ('mf_analysis', dict(q=[1.0], n_cumul=1, save=False)), ('mf_analysis', dict(q=[1.0], n_cumul=2)),
                ('hmin', {})],
    'leaders': [('mf_analysis_full', dict(j2=2, wt_name='db1', q=[2.0], n_cumul=1, p_exp=math.inf)),
                ('mf_analysis_full', dict(j2=2, wt_name='db1', q=[2.0], n_cumul=1)),
                ('mf_analysis_full', dict(j2=2, wt_name='db1', q=[2.0], n_cumul=1, p_exp=2)), ('hurst', {})],
    'welch': [('hmin', {}), ('estimate_welch_psd', dict(n_fft=8)), ('estimate_welch_psd', dict(n_fft=8, seg_size=6)),
              ('estimate_welch_psd', dict(n_fft=8, seg_size=8)), ('estimate_welch_psd', dict(n_fft=4)),
              ('estimate_welch_psd', dict(n_fft=8))],
    'scales': [('wavelet_analysis', {**W, 'j2': 3}), ('hurst', {}), ('wavelet_analysis', {**W, 'j2': 2}), ('hurst', {}),
               ('wavelet_analysis', {**W, 'weighted': False, 'j2': 3}), ('hmin', {}), ('hurst', {}),
               ('mf_analysis_full', dict(j2=3, j1=2, wt_name='db1')), ('hmin', {})],
    'figures': [('wavelet_analysis', W), ('plot_psd', dict(n_fft=8, n_moments=1)), ('estimate_wavelet_psd', dict(n_moments=1)),
                ('plot_fractal', dict(n_moments=1, freq_band=(0.01, 1), n_fft=16)), ('estimate_welch_psd', dict(n_fft=8)),
                ('hurst', {}), ('hmin', {})],
}


def cases(tier):
    out = []

    def add(f, name, *a, **k):
        out.append(Case(f'{f.__name__} {name}', lambda E: f(E, *a, **k), bound=str(a or k), max_paths=20000, runs=3))
    wav = ('wavelet_analysis', 'mf_analysis', 'mf_analysis_full', 'hurst', 'hmin', 'estimate_wavelet_psd')
    psd = ('estimate_wavelet_psd', 'estimate_welch_psd', 'fractal_analysis', 'wavelet_analysis')
    every = tuple(OPS)
    length = 3
    for v in ('j1', 'j2', 'normalization', 'gamint', 'weighted', 'wt_name', 'p_exp'):
        for first in BUILDS:
            add(history, f'{first}, free {v}', first, wav, (v,), length)
    for v in ('q', 'n_cumul', 'save'):
        for first in ('wavelet_analysis', 'mf_analysis_full'):
            add(history, f'{first}, free {v}', first, ('mf_analysis', 'mf_analysis_full', 'wavelet_analysis', 'hmin'), (v,),
                length if v != 'save' else 4)
    for v in (('n_moments',), ('n_moments', 'bad'), ('psd_j2',), ('n_fft',), ('seg',), ('band',)):
        for first in psd[:3]:
            add(history, f'{first}, free {"+".join(v)}', first, psd, v, length)
    mf = ('mf_analysis', 'mf_analysis_full')
    add(history, 'wavelet_analysis, free n_cumul and save', 'wavelet_analysis', mf, ('n2', 'save'), 4)
    for v in (('n2', 'weighted'), ('n2', 'gamint'), ('q', 'j1')):
        add(history, f'mf_analysis_full, free {" and ".join(v)}', 'mf_analysis_full', mf + ('wavelet_analysis',), v, length)
    for v in (('n_moments', 'band'), ('n_moments', 'psd_j2')):
        add(history, f'fractal_analysis, free {" and ".join(v)}', 'fractal_analysis', psd[::2], v, length)
    for first in every:
        add(history, f'{first}, all methods', first, every, (), length)
    for k, h in HIST.items():
        add(numeric, k, h)
    for k in ('list', 'array'):
        add(mutable_q, k, k)
    add(difference, 'two signals')
    if tier == 'thorough':
        for first in every:
            add(history, f'{first}, all methods, 4 calls', first, every, (), 4)
        for v in ('j1', 'gamint', 'wt_name', 'p_exp', 'weighted'):
            add(history, f'wavelet_analysis, free {v}, 4 calls', 'wavelet_analysis', wav, (v,), 4)
        add(history, 'n_moments and j2', 'estimate_wavelet_psd', psd, ('n_moments', 'psd_j2'), 3)
        add(history, 'q and save', 'mf_analysis_full', ('mf_analysis', 'mf_analysis_full'), ('q', 'save'), 3)
    return out
