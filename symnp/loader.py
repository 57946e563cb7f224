"""Loads the real source of /repo/pymultifracs for symbolic execution.

Every module is read from the working tree, compiled under its own file name and executed with a
namespace in which numpy and the other numeric libraries are replaced by symbolic versions.
"""
import builtins
import math
import os
import sys
import types

import numpy as np

from . import alg, arr, core
from .alg import Fr, Unsupported
from .arr import SymArray, mk, obj, issym, lift, wrap
from .core import CV, SV, SymBool, NAN, is_num, sym

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pymultifracs'
ALIAS = '_sym_pymultifracs'


class Mod(types.ModuleType):
    """A module whose missing attributes come from `base`."""

    def __init__(self, name, base=None, over=None, default=None):
        super().__init__(name)
        self.__dict__['_base'] = base
        self.__dict__['_default'] = default
        self.__path__ = []
        if over:
            self.__dict__.update(over)

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__version__',):
            raise AttributeError(n)
        b = self.__dict__['_base']
        d = self.__dict__['_default']
        if b is not None and hasattr(b, n):
            v = getattr(b, n)
            return d(n, v) if d else v
        if b is None and d:
            return d(n, None)
        raise AttributeError(f'module {self.__name__} has no attribute {n}')


# ---------------------------------------------------------------- numpy

class UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        a = [lift(x) for x in a]
        if any(isinstance(x, (core.SV, CV, SymBool)) for x in a) and \
                not any(isinstance(x, np.ndarray) for x in a) and not k:
            f = arr.EL.get(self._u.__name__)
            if f is not None:
                return arr.pyfloat(f(*a)) if all(
                    isinstance(x, (SV, CV, SymBool, complex)) or is_num(x) for x in a) \
                    else self._u(*a)
        r = self._u(*a, **k)
        return r

    def __getattr__(self, n):
        v = getattr(self._u, n)
        if callable(v):
            return lambda *a, **k: v(*[lift(x) for x in a], **k)
        return v


def np_wrap(name, v):
    if isinstance(v, np.ufunc):
        return UfuncProxy(v)
    if isinstance(v, type) or not callable(v):
        return v

    def f(*a, **k):
        if any(issym(x) for x in a) or any(issym(x) for x in k.values()):
            a = [lift(x) for x in a]
            k = {n: lift(x) for n, x in k.items()}
            h = arr.H.get(v)
            if h is not None:
                return h(*a, **k)
        return wrap(v(*a, **k))
    f.__name__ = name
    return f


class Vectorize:
    def __init__(self, pyfunc, otypes=None, **k):
        self.f = pyfunc

    def __call__(self, *a):
        return arr.mapel(self.f, *a)


def frompyfunc(f, nin, nout):
    if nout != 1:
        raise Unsupported('frompyfunc')
    return lambda *a: arr.mapel(f, *a)


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SV))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SV))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(float, metaclass=FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymArray):
            x = x.item()
        if isinstance(x, SV):
            return x
        if isinstance(x, SymBool):
            return core.num(x)
        return float(x)

    @staticmethod
    def fromhex(s):
        return float.fromhex(s)


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(int, metaclass=IntMeta):
    def __new__(cls, x=0, *a):
        return int(x, *a) if a else int(x)


def s_abs(x):
    return core.e_abs(x) if isinstance(x, (SV, CV)) else abs(x)


def _mm(name):
    nat = getattr(builtins, name)

    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if 'key' in k or not any(isinstance(x, SV) for x in xs):
            return nat(xs, **k) if len(a) == 1 else nat(*a, **k)
        if not xs:
            return nat(xs, **k)
        # python's max/min: nan compares false
        if any(not sym(x) and x != x for x in xs):
            return nat(xs)
        return core.maxlist(xs) if name == 'max' else core.minlist(xs)
    return f


def s_pow(a, b, m=None):
    return pow(a, b) if m is None else pow(a, b, m)


def s_round(x, n=None):
    if isinstance(x, (SV, SymArray)):
        return arr.H_round(x, n or 0)
    return round(x) if n is None else round(x, n)


def np_scalar(name, t):
    kind = np.dtype(t).kind

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, t) or (kind == 'f' and isinstance(x, SV))

        def __subclasscheck__(cls, c):
            return issubclass(c, t)

        def __eq__(cls, o):
            return o is cls or o is t

        def __hash__(cls):
            return hash(t)

    class S(metaclass=Meta):
        dtype = np.dtype(t)

        def __new__(cls, x=0):
            if issym(x) or isinstance(x, SymArray):
                return arr.unwrap0(arr.cast(x, t))
            return t(x)
    S.__name__ = name
    return S


def make_np():
    over = {
        'zeros': arr.c_zeros, 'ones': arr.c_ones, 'empty': arr.c_empty, 'full': arr.c_full,
        'array': arr.c_array, 'asarray': arr.c_asarray, 'asanyarray': arr.c_asarray,
        'ascontiguousarray': arr.c_asarray, 'asfortranarray': arr.c_asarray,
        'asarray_chkfinite': arr.c_asarray,
        'arange': arr.c_arange, 'linspace': arr.c_linspace, 'logspace': arr.c_logspace,
        'geomspace': arr.c_geomspace, 'zeros_like': arr.H_zeros_like,
        'ones_like': arr.H_ones_like, 'empty_like': arr.H_empty_like, 'full_like': arr.H_full_like,
        'vectorize': Vectorize, 'frompyfunc': frompyfunc,
        'fft': Mod('numpy.fft', np.fft, default=np_wrap),
        'linalg': Mod('numpy.linalg', np.linalg, default=np_wrap),
        'random': Mod('numpy.random', np.random, RANDOM),
        'eye': lambda *a, **k: mk(np.eye(*a, **{x: y for x, y in k.items() if x != 'dtype'})),
        'identity': lambda n, **k: mk(np.identity(n)),
        'iterable': np.iterable,
        'isscalar': lambda x: isinstance(x, (SV, CV, SymBool)) or np.isscalar(x),
    }
    for name in ('float64', 'float32', 'double', 'int64', 'int32', 'intp', 'complex128'):
        over[name] = np_scalar(name, getattr(np, name))
    over['float_'] = over['float64']
    over['core'] = np.core if hasattr(np, 'core') else None
    return Mod('numpy', np, over, default=np_wrap)


# random draws: fresh unit Gaussian symbols, or the values of FEED when a harness supplies them

FEED = None

def gauss(shape):
    c = core.ctx()
    shape = arr._shape(shape) if shape is not None else ()
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        if FEED is not None:
            r[i] = next(FEED, 0.0)
            continue
        n = c.noise_count = getattr(c, 'noise_count', 0) + 1
        name = f'w{n}'
        p = alg.var(name)
        c.vars.append((name, p, {'noise': True}))
        r[i] = SV(p)
    return r.view(SymArray) if shape else r[()]


class SymRng:
    def randn(self, *shape):
        return gauss(shape if shape else None)

    def standard_normal(self, size=None, **k):
        return gauss(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale))
        return loc + scale * gauss(size)

    def multivariate_normal(self, *a, **k):
        raise Unsupported('multivariate_normal')

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        raise Unsupported(f'random.{n}')


RNG = SymRng()
RANDOM = {'randn': RNG.randn, 'standard_normal': RNG.standard_normal, 'normal': RNG.normal,
          'seed': RNG.seed, 'default_rng': lambda *a: RNG, 'RandomState': lambda *a: RNG}


# ---------------------------------------------------------------- other libraries

def m1(f, native):
    def g(x, *a):
        if isinstance(x, SymArray):
            x = x.item()
        if sym(x):
            return f(x, *a)
        return native(x, *a)
    return g


def make_math():
    def check(f, ok):
        def g(x):
            r = f(x)
            if not sym(r) and not math.isfinite(r):
                raise ValueError('math domain error')
            return r
        return g
    over = {
        'sqrt': m1(check(core.e_sqrt, 0), math.sqrt), 'log2': m1(check(core.e_log2, 0), math.log2),
        'log10': m1(check(core.e_log10, 0), math.log10), 'exp': m1(core.e_exp, math.exp),
        'exp2': m1(core.e_exp2, getattr(math, 'exp2', lambda x: 2.0 ** x)),
        'fabs': m1(core.e_abs, math.fabs),
        'floor': m1(lambda x: int(core.e_floor(x)), math.floor),
        'ceil': m1(lambda x: int(core.e_ceil(x)), math.ceil),
        'trunc': m1(int, math.trunc),
        'isnan': m1(lambda x: False, math.isnan), 'isinf': m1(lambda x: False, math.isinf),
        'isfinite': m1(lambda x: True, math.isfinite),
        'log1p': m1(core.e_log1p, math.log1p), 'expm1': m1(core.e_expm1, math.expm1),
    }

    def log(x, base=None):
        if sym(x) or sym(base):
            r = check(core.e_log, 0)(x)
            return r if base is None else core.e_div(r, core.e_log(base))
        return math.log(x) if base is None else math.log(x, base)

    def mpow(a, b):
        return core.e_pow(a, b) if sym(a) or sym(b) else math.pow(a, b)

    over['log'] = log
    over['pow'] = mpow
    over['fsum'] = lambda xs: core.sumlist(list(xs))
    over['hypot'] = lambda a, b: core.e_hypot(a, b) if sym(a) or sym(b) else math.hypot(a, b)
    over['prod'] = lambda xs: arr._redlist('multiply', list(xs))
    return Mod('math', math, over)


def _nd_full(a, k):
    out = {}
    sh = tuple(n + m - 1 for n, m in zip(a.shape, k.shape))
    terms = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        terms[i] = []
    for j in np.ndindex(*k.shape):
        kv = k[j]
        for i in np.ndindex(*a.shape):
            terms[tuple(x + y for x, y in zip(i, j))].append(core.e_mul(a[i], kv))
    r = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        r[i] = core.sumlist(terms[i])
    return r


def s_convolve(in1, in2, mode='full', method='auto'):
    from scipy import signal as ss
    a, k = obj(lift(in1)), obj(lift(in2))
    if a.ndim != k.ndim:
        raise ValueError('in1 and in2 should have the same dimensionality')
    if mode not in ('full', 'valid', 'same'):
        raise ValueError("acceptable mode flags are 'valid', 'same', or 'full'")
    if method == 'auto':
        method = ss.choose_conv_method(np.ones(a.shape), np.ones(k.shape), mode)
    if mode == 'valid' and any(x < y for x, y in zip(a.shape, k.shape)):
        a, k = k, a
    r = _nd_full(a, k)
    if method == 'fft' and any(not sym(x) and not isinstance(x, CV) and not np.isfinite(x)
                               for x in list(a.reshape(-1)) + list(k.reshape(-1))):
        r[...] = NAN
    if mode == 'same':
        sl = tuple(slice((f - n) // 2, (f - n) // 2 + n) for f, n in zip(r.shape, a.shape))
        r = r[sl]
    elif mode == 'valid':
        sl = tuple(slice(m - 1, n) for n, m in zip(a.shape, k.shape))
        r = r[sl]
    return np.ascontiguousarray(r).view(SymArray)


def s_correlate(in1, in2, mode='full', method='auto'):
    k = obj(lift(in2))
    k = k[tuple(slice(None, None, -1) for _ in range(k.ndim))]
    return s_convolve(in1, arr.mapel(core.e_conj, k), mode, method)


def s_lfilter(b, a, x, axis=-1, zi=None):
    if zi is not None:
        raise Unsupported('lfilter zi')
    b, a = list(obj(lift(b)).reshape(-1)), list(obj(lift(a)).reshape(-1))
    if len(a) != 1:
        raise Unsupported('recursive lfilter')
    return arr.along(lambda xs: [core.e_div(v, a[0]) for v in arr.conv1(xs, b)[:len(xs)]], x, axis)


def s_welch(x, fs=1.0, window='hann_periodic', nperseg=None, noverlap=None, nfft=None,
            detrend='constant', return_onesided=True, scaling='density', axis=-1, average='mean'):
    """scipy.signal.welch on symbolic data (same conventions, checked against scipy on every run)."""
    from scipy import signal as ss
    x = obj(lift(x))
    if x.ndim > 1:
        t = np.moveaxis(x, axis, -1)
        rows = {}
        for i in np.ndindex(*t.shape[:-1]):
            f, rows[i] = s_welch(t[i], fs, window, nperseg, noverlap, nfft, detrend,
                                 return_onesided, scaling, -1, average)
        n = len(f)
        r = np.empty(t.shape[:-1] + (n,), dtype=object)
        for i, v in rows.items():
            r[i] = obj(v)
        return f, np.moveaxis(r, -1, axis).view(SymArray)
    n = len(x)
    if nperseg is None:
        nperseg = 256 if isinstance(window, (str, tuple)) else len(obj(window))
    nperseg = int(nperseg)
    if isinstance(window, (str, tuple)):
        if nperseg > n:
            import warnings
            warnings.warn(f'nperseg = {nperseg} is greater than input length = {n}, using nperseg = {n}')
            nperseg = n
        win = list(ss.get_window(window, nperseg))
    else:
        win = list(obj(window))
        nperseg = len(win)
        if nperseg > n:
            raise ValueError('window is longer than input signal')
    nfft = nperseg if nfft is None else int(nfft)
    if nfft < nperseg:
        raise ValueError('nfft must be greater than or equal to nperseg.')
    noverlap = nperseg // 2 if noverlap is None else int(noverlap)
    if noverlap >= nperseg:
        raise ValueError('noverlap must be less than nperseg.')
    step = nperseg - noverlap
    segs = [list(x[i:i + nperseg]) for i in range(0, n - nperseg + 1, step)]
    if detrend not in (False, None):
        if detrend != 'constant':
            raise Unsupported('welch detrend')
        segs = [[core.e_sub(v, arr._mean(s)) for v in s] for s in segs]
    if scaling == 'density':
        sc = core.e_div(1.0, core.e_mul(fs, sum(float(w) ** 2 for w in win)))
    elif scaling == 'spectrum':
        sc = 1.0 / sum(win) ** 2
    else:
        raise ValueError('unknown scaling')
    if not return_onesided:
        raise Unsupported('two-sided welch')
    nf = nfft // 2 + 1
    cols = []
    for s in segs:
        z = arr._dft([core.e_mul(v, w) for v, w in zip(s, win)], nfft, False, 1)[:nf]
        cols.append([core.e_add(core.e_mul(c.re, c.re), core.e_mul(c.im, c.im)) for c in z])
    res = []
    for k in range(nf):
        vs = [c[k] for c in cols]
        if average == 'mean':
            v = arr._mean(vs)
        elif average == 'median':
            v = core.e_div(arr._median(vs), ss._spectral_py._median_bias(len(vs)))
        else:
            raise ValueError('average must be "median" or "mean"')
        f2 = 1 if (k == 0 or (nfft % 2 == 0 and k == nf - 1)) else 2
        res.append(core.e_mul(core.e_mul(v, f2), sc))
    fr = np.fft.rfftfreq(nfft) * fs if not sym(fs) else mk([core.e_mul(fs, float(v)) for v in
                                                           np.fft.rfftfreq(nfft)])
    return fr, mk(res)


def guarded(name):
    def d(n, v):
        if isinstance(v, types.ModuleType) or isinstance(v, type) or not callable(v):
            return v

        def f(*a, **k):
            if any(issym(x) or isinstance(x, SymArray) for x in list(a) + list(k.values())):
                if all(not _hassv(x) for x in list(a) + list(k.values())):
                    return v(*[_denat(x) for x in a], **{q: _denat(x) for q, x in k.items()})
                raise Unsupported(f'{name}.{n} on symbolic data')
            return v(*a, **k)
        return f
    return d


def _hassv(x):
    if isinstance(x, (SV, CV, SymBool)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(v, (SV, CV, SymBool)) for v in x.view(np.ndarray).reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(_hassv(v) for v in x)
    return False


def _denat(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array(x.view(np.ndarray).tolist(), dtype=float)
    return x


def s_toeplitz(c, r=None):
    c = list(obj(lift(c)).reshape(-1))
    r = list(obj(lift(r)).reshape(-1)) if r is not None else [core.e_conj(x) for x in c]
    return mk([[c[i - j] if i >= j else r[j - i] for j in range(len(r))] for i in range(len(c))])


def s_circulant(c):
    c = list(obj(lift(c)).reshape(-1))
    n = len(c)
    return mk([[c[(i - j) % n] for j in range(n)] for i in range(n)])


def s_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    return arr.H_cholesky(mk(lift(a)), upper=not lower)


class LinReg:
    """Ordinary least squares (sklearn.linear_model.LinearRegression)."""

    def __init__(self, fit_intercept=True, **k):
        self.fit_intercept = fit_intercept

    def fit(self, X, y, sample_weight=None):
        X, y = mk(lift(X)), mk(lift(y))
        if X.ndim != 2:
            raise ValueError('Expected 2D array, got 1D array instead')
        if len(X) == 0:
            raise ValueError(f'Found array with 0 sample(s) (shape={X.shape}) while a minimum of 1 '
                             'is required by LinearRegression.')
        if len(X) != len(y):
            raise ValueError('Found input variables with inconsistent numbers of samples')
        for v in list(obj(X).reshape(-1)) + list(obj(y).reshape(-1)):
            if not sym(v) and not np.isfinite(v):
                raise ValueError('Input contains NaN, infinity')
        n, m = X.shape
        w = mk([1.0] * n) if sample_weight is None else mk(lift(sample_weight))
        one = y.ndim == 1
        Y = y[:, None] if one else y
        if self.fit_intercept:
            sw = w.sum()
            xm = (X * w[:, None]).sum(axis=0) / sw
            ym = (Y * w[:, None]).sum(axis=0) / sw
            Xc, Yc = X - xm, Y - ym
        else:
            Xc, Yc = X, Y
        Xw = Xc * w[:, None]
        if n == 1 and self.fit_intercept:
            coef = mk(np.zeros((m, Y.shape[1])))
        else:
            coef = arr.solve_lin(arr.H_matmul(Xw.T, Xc), arr.H_matmul(Xw.T, Yc))
        coef = mk(obj(coef)).reshape(m, Y.shape[1])
        if self.fit_intercept:
            b = ym - arr.H_matmul(xm, coef)
        else:
            b = mk([0.0] * Y.shape[1])
        self.coef_ = coef[:, 0] if one else coef.T
        self.intercept_ = b[0] if one else b
        return self

    def predict(self, X):
        return arr.H_matmul(mk(X), self.coef_ if self.coef_.ndim == 1 else self.coef_.T) \
            + self.intercept_


def s_linregress(x, y=None, **k):
    import types as _t
    p = arr.H_polyfit(x, y, 1)
    return _t.SimpleNamespace(slope=p[0], intercept=p[1])


class Dummy:
    """Absorbs plotting calls."""

    def __init__(self, name='dummy', log=None):
        self.__dict__['_name'] = name
        self.__dict__['_log'] = log

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Dummy(f'{self._name}.{n}', self._log)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        if self._log is not None:
            self._log.append((self._name, a, k, self._name.rpartition('.')[0]))
        if self._name.endswith('subplots'):
            n, m = (list(a) + [k.get('nrows', 1), k.get('ncols', 1)][len(a):])[:2]
            ax = np.empty((n, m), dtype=object)
            for i in np.ndindex(n, m):
                ax[i] = Dummy(f'ax[{i[0]},{i[1]}]', self._log)
            if k.get('squeeze', True):
                ax = ax.squeeze()
                if ax.ndim == 0:
                    ax = ax[()]
            return Dummy('fig', self._log), ax
        return Dummy(f'{self._name}()', self._log)

    def __getitem__(self, k):
        return Dummy(f'{self._name}[{k}]', self._log)

    def __iter__(self):
        return iter(())


def dummy_module(name, log=None):
    d = Dummy(name, log)
    return Mod(name, None, default=lambda n, v: Dummy(f'{name}.{n}', log))


def binom(n, k, **kw):
    if issym(n) or issym(k):
        raise Unsupported('binom of symbolic')
    from scipy.special import binom as b
    return b(n, k)


def make_libs(plotlog=None):
    import scipy
    import scipy.signal
    import scipy.special
    import scipy.linalg
    import scipy.fft
    import scipy.stats
    NP = make_np()
    sig = Mod('scipy.signal', scipy.signal, {
        'convolve': s_convolve, 'fftconvolve': lambda a, b, mode='full', **k: s_convolve(a, b, mode, 'fft'),
        'oaconvolve': lambda a, b, mode='full', **k: s_convolve(a, b, mode, 'fft'),
        'correlate': s_correlate, 'lfilter': s_lfilter, 'welch': s_welch,
    }, default=guarded('scipy.signal'))
    spec = Mod('scipy.special', scipy.special, {'binom': binom, 'xlogy': lambda x, y: x * np.log(y),
                                                'exp2': arr.EL['exp2']},
               default=guarded('scipy.special'))
    lin = Mod('scipy.linalg', scipy.linalg, {
        'toeplitz': s_toeplitz, 'circulant': s_circulant, 'cholesky': s_cholesky,
        'solve': lambda a, b, **k: arr.solve_lin(a, b), 'lstsq': arr.H_lstsq, 'inv': arr.H_inv},
        default=guarded('scipy.linalg'))
    fft = Mod('scipy.fft', scipy.fft, {'fft': arr.H_fft, 'ifft': arr.H_ifft, 'rfft': arr.H_rfft,
                                       'irfft': arr.H_irfft, 'fft2': arr.H_fft2,
                                       'ifft2': arr.H_ifft2}, default=guarded('scipy.fft'))
    stats = Mod('scipy.stats', scipy.stats, {'linregress': s_linregress},
                default=guarded('scipy.stats'))
    sp = Mod('scipy', scipy, {'signal': sig, 'special': spec, 'linalg': lin, 'fft': fft,
                              'stats': stats}, default=guarded('scipy'))
    sklm = Mod('sklearn.linear_model', None, {'LinearRegression': LinReg})
    sk = Mod('sklearn', None, {'linear_model': sklm})
    mpl = dummy_module('matplotlib', plotlog)
    plt = dummy_module('plt', plotlog)
    mpl.__dict__['pyplot'] = plt
    mth = make_math()
    return {
        'numpy': NP, 'numpy.fft': NP.fft, 'numpy.linalg': NP.linalg, 'numpy.random': NP.random,
        'scipy': sp, 'scipy.signal': sig, 'scipy.special': spec, 'scipy.linalg': lin,
        'scipy.fft': fft, 'scipy.stats': stats, 'math': mth,
        'sklearn': sk, 'sklearn.linear_model': sklm, 'matplotlib': mpl, 'matplotlib.pyplot': plt,
        'seaborn': dummy_module('sns', plotlog), 'pandas': dummy_module('pd', plotlog),
    }


# ---------------------------------------------------------------- the package

_CODE = {}
EXECUTED = set()          # (file, qualified name) of /repo functions entered symbolically


def source_code(path):
    c = _CODE.get(path)
    if c is None:
        with open(path) as f:
            c = _CODE[path] = compile(f.read(), path, 'exec')
    return c


def watch_functions():
    """Records, once each, the functions of the repository entered (sys.monitoring)."""
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'symnp')
    except ValueError:
        return
    root = os.path.join(REPO, PKG)

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root):
            EXECUTED.add((os.path.relpath(fn, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


class Package:
    """One symbolic instance of pymultifracs."""

    def __init__(self, plotlog=None, stubs=None):
        for n in [n for n in sys.modules if n == ALIAS or n.startswith(ALIAS + '.')]:
            del sys.modules[n]
        self.mods = {}
        self.libs = make_libs(plotlog)
        self.stubs = stubs or {}       # module -> {name: replacement}
        b = dict(vars(builtins))
        b.update({'__import__': self._import, 'float': SFloat, 'int': SInt, 'abs': s_abs,
                  'max': _mm('max'), 'min': _mm('min'), 'round': s_round, 'pow': s_pow})
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - (level - 1)]
            full = '.'.join(pkg + ([name] if name else []))
        else:
            full = name
            if full == PKG or full.startswith(PKG + '.'):
                full = ALIAS + full[len(PKG):]
        if full == ALIAS or full.startswith(ALIAS + '.'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        sub = self._path(full + '.' + f)
                        if sub:
                            setattr(m, f, self.load(full + '.' + f))
                return m
            return self.load(full.split('.')[0])
        if full in self.libs:
            return self.libs[full] if fromlist else self.libs[full.split('.')[0]]
        top = full.split('.')[0]
        if top in self.libs:
            if top in ('matplotlib', 'seaborn', 'pandas'):
                return dummy_module(full) if fromlist else self.libs[top]
            if top in ('scipy', 'sklearn', 'numpy'):
                m = __import__(full, fromlist=['x'])
                m = Mod(full, m, default=guarded(full))
                if fromlist:
                    return m
                return self.libs[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _path(self, full):
        parts = full.split('.')[1:]
        p = os.path.join(REPO, PKG, *parts)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if parts and os.path.exists(p + '.py'):
            return p + '.py', False
        return None

    def load(self, full):
        m = self.mods.get(full)
        if m is not None:
            return m
        r = self._path(full)
        if r is None:
            raise ModuleNotFoundError(f'No module named {full.replace(ALIAS, PKG)!r}')
        path, ispkg = r
        if '.' in full:
            self.load(full.rsplit('.', 1)[0])
            if full in self.mods:
                return self.mods[full]
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if ispkg else full.rsplit('.', 1)[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        sys.modules[full] = m
        exec(source_code(path), m.__dict__)
        for n, v in self.stubs.get(full[len(ALIAS) + 1:], {}).items():
            m.__dict__[n] = v
        if '.' in full:
            parent, leaf = full.rsplit('.', 1)
            setattr(self.mods[parent], leaf, m)
        return m

    def mod(self, name):
        return self.load(ALIAS + ('.' + name if name else ''))
