"""Symbolic arrays: an object-dtype ndarray subclass that runs numpy code on symbolic reals."""
import functools
import math
import operator
import itertools

import numpy as np

from . import alg, core
from .alg import Unsupported, Fr
from .core import SV, CV, SymBool, NAN, INF, num, sym, truth, is_num

SYM = (SV, CV, SymBool)


def issym(x):
    """Does x contain symbolic scalars?"""
    if isinstance(x, SYM) or isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return any(issym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


class SymArray(np.ndarray):
    __array_priority__ = 900

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return sym_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return sym_function(func, args, kwargs)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, fixkey(k))
        return pyfloat(r)

    def __setitem__(self, k, v):
        v = lift(v)
        if isinstance(k, SymArray) and k.shape == self.shape[:k.ndim] and has_symbool(k) \
                and (np.ndim(v) == 0):
            for i in np.ndindex(*k.shape):
                c = np.ndarray.__getitem__(k, i)
                if c is False or c is True or isinstance(c, (bool, np.bool_)):
                    if c:
                        np.ndarray.__setitem__(self, i, unwrap0(v))
                    continue
                if k.ndim == self.ndim:
                    old = np.ndarray.__getitem__(self, i)
                    np.ndarray.__setitem__(self, i, core.e_where(c, unwrap0(v), old))
                else:
                    if bool(c):
                        np.ndarray.__setitem__(self, i, unwrap0(v))
            return
        v = unwrap0(v)
        k = fixkey(k)
        kk = k if isinstance(k, tuple) else (k,)
        entry = len(kk) == self.ndim and all(isinstance(x, (int, np.integer))
                                             and not isinstance(x, bool) for x in kk)
        if entry and isinstance(v, np.ndarray) and v.size == 1:
            v = v.view(np.ndarray).reshape(-1)[0]
        if isinstance(v, SYM):
            if entry:
                np.ndarray.__setitem__(self, k, v)
                return
            a = np.empty((), dtype=object)
            a[()] = v
            v = a
        np.ndarray.__setitem__(self, k, v)

    def __contains__(self, x):
        r = self == x
        return bool(np.any(r)) if isinstance(r, np.ndarray) else bool(r)

    def __bool__(self):
        if self.size == 1:
            return bool(self.item0())
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def item0(self):
        return np.ndarray.reshape(self.view(np.ndarray), -1)[0]

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(self.item0())

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(self.item0())

    def __index__(self):
        return operator.index(self.item0())

    def __format__(self, spec):
        if spec and self.ndim:
            raise TypeError('unsupported format string passed to numpy.ndarray.__format__')
        return format(self.item0(), spec) if spec else '<array>'

    def __repr__(self):
        return 'SymArray' + repr(self.view(np.ndarray).tolist())

    __str__ = __repr__

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        return (str, (repr(self),))

    def __divmod__(self, o):
        return self // o, self % o

    def __round__(self, n=0):
        return np.round(self, n)

    def __abs__(self):
        return np.absolute(self)

    # methods that numpy implements in C for object arrays
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
        return _out(reduce_('add', self, axis, keepdims, where=where, initial=initial), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=1, where=True):
        return _out(reduce_('multiply', self, axis, keepdims, where=where, initial=initial), out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return _out(H_mean(self, axis=axis, keepdims=keepdims, where=where), out)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return _out(H_var(self, axis=axis, ddof=ddof, keepdims=keepdims, **k), out)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return _out(H_std(self, axis=axis, ddof=ddof, keepdims=keepdims, **k), out)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _out(reduce_('maximum', self, axis, keepdims, **k), out)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _out(reduce_('minimum', self, axis, keepdims, **k), out)

    def ptp(self, axis=None, **k):
        return self.max(axis=axis) - self.min(axis=axis)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return _out(reduce_('logical_and', self, axis, keepdims, where=where), out)

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return _out(reduce_('logical_or', self, axis, keepdims, where=where), out)

    def cumsum(self, axis=None, dtype=None, out=None):
        return _out(accumulate('add', self, axis), out)

    def cumprod(self, axis=None, dtype=None, out=None):
        return _out(accumulate('multiply', self, axis), out)

    def argmax(self, axis=None, out=None, **k):
        return H_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return H_argmax(-self, axis)

    def argsort(self, axis=-1, *a, **k):
        return H_argsort(self, axis)

    def sort(self, axis=-1, *a, **k):
        self[...] = H_sort(self, axis)

    def clip(self, min=None, max=None, out=None, **k):
        return _out(H_clip(self, min, max), out)

    def round(self, decimals=0, out=None):
        return _out(H_round(self, decimals), out)

    def dot(self, b, out=None):
        return _out(H_dot(self, b), out)

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def nonzero(self):
        return concrete_bool(self).nonzero()

    def astype(self, dtype, *a, copy=True, **k):
        return cast(self, dtype)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        r = self.view(np.ndarray)
        r = r[a if len(a) > 1 else a[0]] if a and len(a) == r.ndim else \
            (r.reshape(-1)[a[0]] if a else None)
        if not a:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            r = self.item0()
        return r

    def fill(self, v):
        self[...] = v

    def take(self, indices, axis=None, out=None, mode='raise'):
        return mk(np.take(self.view(np.ndarray), concrete_int(indices), axis=axis, mode=mode))

    def repeat(self, repeats, axis=None):
        return mk(np.repeat(self.view(np.ndarray), repeats, axis=axis))

    def trace(self, *a, **k):
        return np.trace(self, *a, **k)

    @property
    def real(self):
        return mapel(core.e_real, self)

    @real.setter
    def real(self, v):
        self[...] = mapel(lambda r, i: CV(r, i), np.broadcast_to(obj(v), self.shape), self.imag)

    @property
    def imag(self):
        return mapel(core.e_imag, self)

    @imag.setter
    def imag(self, v):
        self[...] = mapel(lambda r, i: CV(r, i), self.real, np.broadcast_to(obj(v), self.shape))


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
        if out is None:
            return r
    out[...] = r
    return out


def mk(a):
    """View an object array (or anything nested) as SymArray."""
    if not isinstance(a, np.ndarray):
        a = obj(a)
    if a.dtype != object:
        a = a.astype(object)
    return a.view(SymArray)


def pyfloat(r):
    if type(r) is float:
        return np.float64(r)
    if type(r) is int:
        return np.int64(r) if -2**63 <= r < 2**63 else r
    if type(r) is bool:
        return np.bool_(r)
    return r


def unwrap0(v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return v[()]
    return v


def obj(x):
    """Object ndarray (base class) of any array-like."""
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray) if x.dtype == object else _native_obj(x)
    if isinstance(x, SYM) or is_num(x) or isinstance(x, (complex, np.complexfloating)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        if not x:
            return np.empty((0,), dtype=object)
        parts = [obj(y) for y in x]
        sh = parts[0].shape
        for p in parts:
            if p.shape != sh:
                raise ValueError('setting an array element with a sequence. The requested array has '
                                 'an inhomogeneous shape')
        a = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            a[i] = p[()] if p.ndim == 0 else p
        return a
    if isinstance(x, (range,)):
        return obj(list(x))
    if hasattr(x, '__iter__') and not isinstance(x, (str, bytes, dict, set)):
        return obj(list(x))
    if x is None or isinstance(x, (str, bytes)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.asarray(x)
    return a if a.dtype == object else _native_obj(a)


def _native_obj(x):
    r = np.empty(x.shape, dtype=object)
    if x.ndim == 0:
        r[()] = x[()]
        return r
    f = r.reshape(-1)
    for i, v in enumerate(x.reshape(-1)):
        f[i] = v
    return f.reshape(x.shape)


def lift(x):
    """Turn lists holding symbolic scalars into arrays, leave the rest alone."""
    if isinstance(x, (list, tuple)) and issym(x):
        try:
            return mk(x)
        except ValueError:
            return x
    return x


def has_symbool(a):
    return any(isinstance(x, SymBool) for x in a.view(np.ndarray).reshape(-1))


def concrete_bool(a):
    a = obj(a)
    r = np.empty(a.shape, dtype=bool)
    fa, fr = a.reshape(-1), r.reshape(-1)
    for i, x in enumerate(fa):
        fr[i] = bool(truth(x)) if not isinstance(x, (CV, complex)) else bool(
            core.e_not(core._C.cmp('eq', x, 0.0)))
    return fr.reshape(a.shape)


def concrete_int(a):
    if isinstance(a, np.ndarray) and a.dtype != object:
        return a
    if isinstance(a, (int, np.integer)):
        return a
    o = obj(a)
    r = np.array([int(x) for x in o.reshape(-1)], dtype=int).reshape(o.shape)
    return r if r.ndim else int(r)


def _fix1(k):
    if isinstance(k, SymBool):
        return bool(k)
    if type(k) is SV:
        return operator.index(k)
    if isinstance(k, np.ndarray) and k.dtype == object:
        fl = k.view(np.ndarray).reshape(-1)
        if k.size and all(isinstance(x, (bool, np.bool_, SymBool)) for x in fl):
            return concrete_bool(k)
        return np.array([operator.index(x) if not isinstance(x, (float, np.floating)) else
                         _float_index(x) for x in fl], dtype=int).reshape(k.shape)
    if isinstance(k, list) and issym(k):
        return _fix1(mk(k))
    if isinstance(k, slice):
        return slice(*[None if v is None else (operator.index(v) if sym(v) else v)
                       for v in (k.start, k.stop, k.step)])
    return k


def _float_index(x):
    raise IndexError('arrays used as indices must be of integer (or boolean) type')


def fixkey(k):
    if isinstance(k, tuple):
        return tuple(_fix1(x) for x in k)
    return _fix1(k)


def pack(r):
    """Result of an elementwise operation."""
    if not isinstance(r, np.ndarray):
        return pyfloat(r)
    if r.ndim == 0:
        return pyfloat(r[()])
    f = r.view(np.ndarray).reshape(-1)
    if f.size and all(isinstance(x, (bool, np.bool_)) for x in f):
        return np.array([bool(x) for x in f], dtype=bool).reshape(r.shape)
    return r.view(SymArray)


def mapel(f, *arrs):
    os = [obj(a) for a in arrs]
    if len(os) > 1:
        os = np.broadcast_arrays(*os)
    r = np.empty(os[0].shape, dtype=object)
    fr = r.reshape(-1) if r.ndim else r
    if r.ndim == 0:
        r[()] = f(*[o[()] for o in os])
        return pack(r)
    for i, xs in enumerate(zip(*[o.reshape(-1) for o in os])):
        fr[i] = f(*xs)
    return pack(fr.reshape(r.shape))


# ---------------------------------------------------------------- ufuncs

def _native_only(name):
    u = getattr(np, name)

    def f(*xs):
        xs = [float(x) if type(x) is SV and x.p.is_const() else x for x in xs]
        if any(isinstance(x, SYM) for x in xs):
            raise Unsupported(f'{name} of a symbolic value')
        with np.errstate(all='ignore'):
            return u(*xs)
    return f


def e_signbit(a):
    if sym(a):
        return core.e_lt(a, 0)
    return bool(np.signbit(a))


def e_heaviside(a, b):
    s = core.sgn(a)
    return b if s == 0 else float(s > 0)


def e_logaddexp2(a, b):
    return core.e_log2(core.e_add(core.e_pow(2.0, a), core.e_pow(2.0, b)))


def e_matmul(a, b):
    raise Unsupported('matmul of scalars')


def e_sinc(x):
    return _native_only('sinc')(x)


def e_gcd(a, b):
    return math.gcd(int(a), int(b))


EL = {
    'add': core.e_add, 'subtract': core.e_sub, 'multiply': core.e_mul, 'divide': core.e_div,
    'true_divide': core.e_div, 'floor_divide': core.e_floordiv, 'power': core.e_pow,
    'float_power': core.e_pow, 'remainder': core.e_mod, 'mod': core.e_mod, 'fmod': core.e_fmod,
    'negative': core.e_neg, 'positive': core.e_pos, 'absolute': core.e_abs, 'fabs': core.e_abs,
    'sqrt': core.e_sqrt, 'cbrt': core.e_cbrt, 'square': core.e_square,
    'reciprocal': core.e_reciprocal, 'log2': core.e_log2, 'log': core.e_log,
    'log10': core.e_log10, 'log1p': core.e_log1p, 'exp2': core.e_exp2, 'exp': core.e_exp,
    'expm1': core.e_expm1, 'floor': core.e_floor, 'ceil': core.e_ceil, 'trunc': core.e_trunc,
    'rint': core.e_rint, 'sign': core.e_sign, 'copysign': core.e_copysign, 'less': core.e_lt,
    'less_equal': core.e_le, 'equal': core.e_eq, 'greater': core.e_gt,
    'greater_equal': core.e_ge, 'not_equal': core.e_ne, 'isnan': core.e_isnan,
    'isinf': core.e_isinf, 'isfinite': core.e_isfinite, 'maximum': core.e_maximum,
    'minimum': core.e_minimum, 'fmax': core.e_fmax, 'fmin': core.e_fmin,
    'logical_and': core.e_and, 'logical_or': core.e_or, 'logical_xor': core.e_xor,
    'logical_not': core.e_not, 'invert': core.e_invert, 'bitwise_not': core.e_invert,
    'bitwise_and': core.e_band, 'bitwise_or': core.e_bor, 'bitwise_xor': core.e_bxor,
    'ldexp': core.e_ldexp, 'hypot': core.e_hypot, 'conjugate': core.e_conj,
    'signbit': e_signbit, 'heaviside': e_heaviside, 'logaddexp2': e_logaddexp2,
}


def sym_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    name = ufunc.__name__
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0]
    if name == 'matmul' and method == '__call__':
        return _out(H_matmul(*inputs), out)
    if name == 'divmod':
        return np.floor_divide(*inputs), np.remainder(*inputs)
    if name == 'modf':
        t = np.trunc(inputs[0])
        return inputs[0] - t, t
    if name == 'vecdot' and method == '__call__':
        return _out((obj(inputs[0]).view(SymArray) * inputs[1]).sum(axis=-1), out)
    f = EL.get(name)
    if f is None:
        f = _native_only(name)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    if method == '__call__':
        ins = [lift(x) for x in inputs]
        r = mapel(f, *ins)
        if dtype is not None and dtype not in (object, float, np.float64):
            r = cast(r, dtype)
        if where is not True:
            if out is None:
                out = np.full(np.shape(r), NAN, dtype=object).view(SymArray)
            r = H_where(where, r, out)
        return _out(r, out)
    if method == 'reduce':
        a = inputs[0]
        axis = kw.get('axis', 0) if len(inputs) < 2 else inputs[1]
        ini = kw.get('initial')
        if ini is np._NoValue:
            ini = None
        return _out(reduce_(name, a, axis, kw.get('keepdims', False), where=where, initial=ini), out)
    if method == 'accumulate':
        a = inputs[0]
        axis = kw.get('axis', 0) if len(inputs) < 2 else inputs[1]
        return _out(accumulate(name, a, axis), out)
    if method == 'outer':
        a, b = (mk(lift(x)) for x in inputs)
        return _out(mapel(f, a.reshape(a.shape + (1,) * b.ndim), b), out)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        if len(inputs) > 2:
            idx = np.atleast_1d(concrete_int(idx))
            vals = np.broadcast_to(obj(inputs[2]), idx.shape)
            for i, v in zip(idx, vals):
                a[i] = f(a[i], v)
            return None
    if method == 'reduceat':
        a, ind = inputs[0], inputs[1]
        a = mk(a)
        ind = list(np.asarray(ind))
        parts = [reduce_(name, a[s:e] if s < e else a[s:s + 1], 0, False)
                 for s, e in zip(ind, ind[1:] + [len(a)])]
        return mk(parts)
    raise Unsupported(f'{name}.{method}')


IDENT = {'add': 0.0, 'multiply': 1.0, 'logical_and': True, 'logical_or': False}


def _redlist(name, xs):
    if name == 'add':
        return core.sumlist(xs)
    if name in ('maximum', 'minimum'):
        if not xs:
            raise ValueError(f'zero-size array to reduction operation {name} which has no identity')
        return core.maxlist(xs) if name == 'maximum' else core.minlist(xs)
    if name in ('fmax', 'fmin'):
        ys = [x for x in xs if sym(x) or x == x]
        if not ys:
            return NAN
        return core.maxlist(ys) if name == 'fmax' else core.minlist(ys)
    if name == 'logical_and':
        return core.mkbool(alg.b_and([core.tree(truth(x)) for x in xs]))
    if name == 'logical_or':
        return core.mkbool(alg.b_or([core.tree(truth(x)) for x in xs]))
    f = EL.get(name) or _native_only(name)
    if not xs:
        return IDENT[name]
    return functools.reduce(f, xs)


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        axs = tuple(operator.index(a) for a in axis)
    else:
        axs = (operator.index(axis),)
    for a in axs:
        if not -nd <= a < nd:
            raise np.exceptions.AxisError(a, nd)
    return tuple(a % nd for a in axs)


def over(fn, a, axis, keepdims=False, where=True):
    """Apply fn (list -> scalar) over the given axes."""
    a = obj(a)
    if a.ndim == 0:
        return pyfloat(fn([a[()]]))
    axs = _axes(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in axs]
    t = a.transpose(keep + list(axs)).reshape([a.shape[i] for i in keep] + [-1]) \
        if a.size else np.empty([a.shape[i] for i in keep] + [0], dtype=object)
    w = None
    if where is not True:
        w = np.broadcast_to(concrete_bool(where), a.shape)
        w = w.transpose(keep + list(axs)).reshape([a.shape[i] for i in keep] + [-1])
    sh = t.shape[:-1]
    r = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        xs = list(t[i])
        if w is not None:
            xs = [x for x, k in zip(xs, w[i]) if k]
        r[i] = fn(xs)
    if keepdims and keepdims is not np._NoValue:
        r = r.reshape([1 if i in axs else a.shape[i] for i in range(a.ndim)])
    return pack(r)


def reduce_(name, a, axis=None, keepdims=False, where=True, initial=None):
    def fn(xs):
        if initial is not None and initial is not np._NoValue:
            if not (name in IDENT and initial == IDENT[name]):
                xs = [initial] + xs
        r = _redlist(name, xs)
        return r
    return over(fn, a, axis, keepdims, where)


def accumulate(name, a, axis=None):
    a = obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    f = EL.get(name) or _native_only(name)
    r = np.empty(a.shape, dtype=object)
    src = np.moveaxis(a, axis, 0)
    dst = np.moveaxis(r, axis, 0)
    for i in range(src.shape[0]):
        if i == 0:
            dst[0] = src[0]
        elif src.ndim == 1:
            dst[i] = f(dst[i - 1], src[i])
        else:
            dst[i] = obj(mapel(f, dst[i - 1], src[i]))
    return pack(r)


def cast_scalar(x, dtype=float, *a, **k):
    return unwrap0(cast(x, dtype))


def _kind(dtype):
    if dtype is None:
        return 'f'
    if isinstance(dtype, type):
        if issubclass(dtype, bool) or dtype is np.bool_:
            return 'b'
        if issubclass(dtype, int):
            return 'i'
        if issubclass(dtype, float):
            return 'f'
        if issubclass(dtype, complex):
            return 'c'
        if dtype is object:
            return 'O'
    return np.dtype(dtype).kind


def cast(a, dtype):
    k = _kind(dtype)
    if k in 'fO':
        return mapel(lambda x: num(x) if sym(x) else (x if isinstance(x, CV) else (
            float(x) if isinstance(x, (bool, np.bool_, int, np.integer)) and k == 'f' else x)), a)
    if k == 'b':
        return mapel(truth, a)
    if k in 'iu':
        o = obj(a)
        return np.array([int(x) for x in o.reshape(-1)], dtype=int).reshape(o.shape)
    if k == 'c':
        return mapel(CV.of, a)
    raise Unsupported(f'cast to {dtype}')


# ---------------------------------------------------------------- numpy functions

H = {}


def handles(*names):
    def d(f):
        for n in names:
            o = np
            for part in n.split('.'):
                o = getattr(o, part, None)
                if o is None:
                    break
            if o is not None:
                H[o] = f
        return f
    return d


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return r.view(SymArray) if r.ndim else pyfloat(r[()])
        return r
    if isinstance(r, tuple) and hasattr(r, '_fields'):
        return type(r)(*[wrap(x) for x in r])
    if isinstance(r, (tuple, list)):
        return type(r)(wrap(x) for x in r)
    return pyfloat(r) if type(r) in (float, int, bool) else r


def sym_function(func, args, kwargs):
    f = H.get(func)
    if f is not None:
        return f(*args, **kwargs)
    impl = getattr(func, '_implementation', None)
    if impl is None:
        raise Unsupported(f'numpy.{func.__name__}')
    return wrap(impl(*[_strip(a) for a in args], **{k: _strip(v) for k, v in kwargs.items()}))


def _strip(a):
    if isinstance(a, SYM):
        return mk(a)
    return a


def _kd(k):
    return False if k is np._NoValue else k


@handles('sum')
def H_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return _out(reduce_('add', lift(a), axis, _kd(keepdims), where=_w(where), initial=initial), out)


def _w(where):
    return True if where is np._NoValue else where


@handles('prod')
def H_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return _out(reduce_('multiply', a, axis, _kd(keepdims), where=_w(where), initial=initial), out)


@handles('max', 'amax')
def H_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _out(reduce_('maximum', a, axis, _kd(keepdims), where=_w(where), initial=initial), out)


@handles('min', 'amin')
def H_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _out(reduce_('minimum', a, axis, _kd(keepdims), where=_w(where), initial=initial), out)


@handles('ptp')
def H_ptp(a, axis=None, **k):
    return mk(a).ptp(axis)


@handles('all')
def H_all(a, axis=None, out=None, keepdims=False, where=True):
    return _out(reduce_('logical_and', a, axis, _kd(keepdims), where=_w(where)), out)


@handles('any')
def H_any(a, axis=None, out=None, keepdims=False, where=True):
    return _out(reduce_('logical_or', a, axis, _kd(keepdims), where=_w(where)), out)


def _mean(xs):
    if not xs:
        return NAN
    return core.e_div(core.sumlist(xs), len(xs))


@handles('mean')
def H_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    return _out(over(_mean, lift(a), axis, _kd(keepdims), _w(where)), out)


def _isnan(x):
    return core.e_isnan(x)


def _nn(xs):
    return [x for x in xs if not _isnan(x)]


@handles('nanmean')
def H_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    return _out(over(lambda xs: _mean(_nn(xs)), lift(a), axis, _kd(keepdims), _w(where)), out)


@handles('nansum')
def H_nansum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return _out(over(lambda xs: core.sumlist(_nn(xs)), lift(a), axis, _kd(keepdims), _w(where)), out)


@handles('nanprod')
def H_nanprod(a, axis=None, **k):
    return over(lambda xs: _redlist('multiply', _nn(xs)), lift(a), axis, _kd(k.get('keepdims', False)))


@handles('nanmax')
def H_nanmax(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _out(over(lambda xs: core.maxlist(_nn(xs)) if _nn(xs) else _empty_ok(xs), lift(a), axis,
                     _kd(keepdims), _w(where)), out)


def _empty_ok(xs):
    if not xs:
        raise ValueError('zero-size array to reduction operation fmax which has no identity')
    return NAN


@handles('nanmin')
def H_nanmin(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _out(over(lambda xs: core.minlist(_nn(xs)) if _nn(xs) else _empty_ok(xs), lift(a), axis,
                     _kd(keepdims), _w(where)), out)


def _var(xs, ddof=0):
    n = len(xs)
    if n - ddof <= 0:
        return NAN
    m = _mean(xs)
    ds = [core.e_sub(x, m) for x in xs]
    return core.e_div(core.sumlist([core.e_real(core.e_mul(d, core.e_conj(d))) for d in ds]),
                      n - ddof)


@handles('var')
def H_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, **k):
    ddof = k.get('correction', ddof) if k.get('correction', ddof) is not np._NoValue else ddof
    return _out(over(lambda xs: _var(xs, ddof), lift(a), axis, _kd(keepdims), _w(where)), out)


@handles('nanvar')
def H_nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, **k):
    return _out(over(lambda xs: _var(_nn(xs), ddof), lift(a), axis, _kd(keepdims), _w(where)), out)


@handles('std')
def H_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, **k):
    return _out(over(lambda xs: core.e_sqrt(_var(xs, ddof)), lift(a), axis, _kd(keepdims),
                     _w(where)), out)


@handles('nanstd')
def H_nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, **k):
    return _out(over(lambda xs: core.e_sqrt(_var(_nn(xs), ddof)), lift(a), axis, _kd(keepdims),
                     _w(where)), out)


def _key(x, y):
    """Comparison for sorting: nan last."""
    if _isnan(x):
        return 0 if _isnan(y) else 1
    if _isnan(y):
        return -1
    if bool(core.e_lt(x, y)):
        return -1
    if bool(core.e_lt(y, x)):
        return 1
    return 0


def _sorted(xs):
    return sorted(xs, key=functools.cmp_to_key(_key))


def _median(xs):
    if not xs or any(_isnan(x) for x in xs):
        return NAN
    s = _sorted(xs)
    n = len(s)
    if n % 2:
        return s[n // 2]
    return core.e_div(core.e_add(s[n // 2 - 1], s[n // 2]), 2)


@handles('median')
def H_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _out(over(_median, lift(a), axis, _kd(keepdims)), out)


@handles('nanmedian')
def H_nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _out(over(lambda xs: _median(_nn(xs)), lift(a), axis, _kd(keepdims)), out)


@handles('average')
def H_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = mk(lift(a))
    if weights is None:
        r = H_mean(a, axis, keepdims=keepdims)
        return (r, a.size) if returned else r
    w = mk(lift(weights))
    if w.shape != a.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    w = mk(np.broadcast_to(w.view(np.ndarray), a.shape))
    s = w.sum(axis=axis, keepdims=_kd(keepdims))
    r = (a * w).sum(axis=axis, keepdims=_kd(keepdims)) / s
    return (r, s) if returned else r


@handles('cumsum')
def H_cumsum(a, axis=None, dtype=None, out=None):
    return _out(accumulate('add', lift(a), axis), out)


@handles('nancumsum')
def H_nancumsum(a, axis=None, dtype=None, out=None):
    return accumulate('add', H_nan_to_num(a), axis)


@handles('cumprod')
def H_cumprod(a, axis=None, dtype=None, out=None):
    return _out(accumulate('multiply', lift(a), axis), out)


@handles('where')
def H_where(cond, *xy):
    if not xy:
        return concrete_bool(lift(cond)).nonzero()
    x, y = xy
    return mapel(core.e_where, lift(cond), lift(x), lift(y))


@handles('nonzero')
def H_nonzero(a):
    return concrete_bool(a).nonzero()


@handles('flatnonzero')
def H_flatnonzero(a):
    return concrete_bool(a).reshape(-1).nonzero()[0]


@handles('argwhere')
def H_argwhere(a):
    return np.argwhere(concrete_bool(a))


@handles('count_nonzero')
def H_count_nonzero(a, axis=None, keepdims=False):
    return np.count_nonzero(concrete_bool(a), axis=axis, keepdims=keepdims)


@handles('extract')
def H_extract(c, a):
    return mk(a).reshape(-1)[concrete_bool(c).reshape(-1)]


@handles('compress')
def H_compress(c, a, axis=None, out=None):
    return wrap(np.compress(concrete_bool(c), obj(a), axis=axis))


@handles('argmax')
def H_argmax(a, axis=None, out=None, keepdims=False):
    def fn(xs):
        b = 0
        for i in range(1, len(xs)):
            if _isnan(xs[b]):
                break
            if _isnan(xs[i]) or bool(core.e_lt(xs[b], xs[i])):
                b = i
        return b
    r = over(fn, a, axis, _kd(keepdims))
    return concrete_int(r) if isinstance(r, np.ndarray) else r


@handles('argmin')
def H_argmin(a, axis=None, out=None, keepdims=False):
    return H_argmax(-mk(a), axis, keepdims=keepdims)


@handles('nanargmax')
def H_nanargmax(a, axis=None, **k):
    return H_argmax(H_where(np.isnan(a), -INF, a), axis)


@handles('nanargmin')
def H_nanargmin(a, axis=None, **k):
    return H_argmax(-mk(H_where(np.isnan(a), INF, a)), axis)


def along(fn, a, axis):
    """Apply fn: list -> list along one axis."""
    a = obj(lift(a))
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    t = np.moveaxis(a, axis, -1)
    rows = {i: fn(list(t[i])) for i in np.ndindex(*t.shape[:-1])}
    n = len(next(iter(rows.values()))) if rows else t.shape[-1]
    r = np.empty(t.shape[:-1] + (n,), dtype=object)
    for i, v in rows.items():
        for j, x in enumerate(v):
            r[i + (j,)] = x
    return pack(np.moveaxis(r, -1, axis))


@handles('sort')
def H_sort(a, axis=-1, kind=None, order=None, stable=None):
    return along(_sorted, a, axis)


@handles('argsort')
def H_argsort(a, axis=-1, kind=None, order=None, stable=None):
    r = along(lambda xs: sorted(range(len(xs)), key=functools.cmp_to_key(
        lambda i, j: _key(xs[i], xs[j]) or (i - j))), a, axis)
    return concrete_int(r)


@handles('partition')
def H_partition(a, kth, axis=-1, **k):
    return H_sort(a, axis)


@handles('unique')
def H_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if axis is not None:
        raise Unsupported('unique with axis')
    xs = list(obj(lift(ar)).reshape(-1))
    idx = sorted(range(len(xs)), key=functools.cmp_to_key(lambda i, j: _key(xs[i], xs[j]) or i - j))
    out, first, cnt, inv = [], [], [], [0] * len(xs)
    for i in idx:
        same = False
        if out:
            same = (_isnan(out[-1]) and _isnan(xs[i])) or (
                not _isnan(xs[i]) and not _isnan(out[-1]) and bool(core.e_eq(out[-1], xs[i])))
        if not same:
            out.append(xs[i])
            first.append(i)
            cnt.append(0)
        cnt[-1] += 1
        inv[i] = len(out) - 1
    res = [mk(out)]
    if return_index:
        res.append(np.array(first))
    if return_inverse:
        res.append(np.array(inv).reshape(np.shape(ar)))
    if return_counts:
        res.append(np.array(cnt))
    return res[0] if len(res) == 1 else tuple(res)


@handles('intersect1d')
def H_intersect1d(a, b, assume_unique=False, return_indices=False):
    a, b = list(obj(a).reshape(-1)), list(obj(b).reshape(-1))
    hit = []
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if bool(core.e_eq(x, y)):
                hit.append((x, i, j))
                break
    hit.sort(key=functools.cmp_to_key(lambda p, q: _key(p[0], q[0])))
    v = mk([h[0] for h in hit])
    if return_indices:
        return v, np.array([h[1] for h in hit], dtype=int), np.array([h[2] for h in hit], dtype=int)
    return v


@handles('isin', 'in1d')
def H_isin(el, test, assume_unique=False, invert=False, kind=None):
    ts = list(obj(lift(test)).reshape(-1))
    r = mapel(lambda x: core.mkbool(alg.b_or([core.tree(core.e_eq(x, t)) for t in ts])), lift(el))
    return np.logical_not(r) if invert else r


@handles('searchsorted')
def H_searchsorted(a, v, side='left', sorter=None):
    xs = list(obj(lift(a)))

    def f(y):
        n = 0
        for x in xs:
            if bool(core.e_lt(x, y) if side == 'left' else core.e_le(x, y)):
                n += 1
            else:
                break
        return n
    r = mapel(f, lift(v))
    return concrete_int(r)


@handles('clip')
def H_clip(a, a_min=None, a_max=None, out=None, **k):
    lo = k.get('min', a_min) if k.get('min') is not np._NoValue else a_min
    hi = k.get('max', a_max) if k.get('max') is not np._NoValue else a_max
    r = a
    if lo is not None and lo is not np._NoValue:
        r = np.maximum(r, lo)
    if hi is not None and hi is not np._NoValue:
        r = np.minimum(r, hi)
    return _out(r, out)


@handles('nan_to_num')
def H_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if sym(v) or isinstance(v, CV):
            return v
        return np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
    r = mapel(f, lift(x))
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


@handles('isclose')
def H_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if not sym(x) and not sym(y):
            return bool(np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan))
        if not core.finite(x) or not core.finite(y):
            return False
        return core.e_le(core.e_abs(core.e_sub(x, y)),
                         core.e_add(atol, core.e_mul(rtol, core.e_abs(y))))
    return mapel(f, lift(a), lift(b))


@handles('allclose')
def H_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(H_all(H_isclose(a, b, rtol, atol, equal_nan)))


@handles('array_equal')
def H_array_equal(a, b, equal_nan=False):
    a, b = obj(lift(a)), obj(lift(b))
    if a.shape != b.shape:
        return False
    return bool(_redlist('logical_and', [
        True if (equal_nan and _isnan(x) and _isnan(y)) else core.e_eq(x, y)
        for x, y in zip(a.reshape(-1), b.reshape(-1))]))


@handles('array_equiv')
def H_array_equiv(a, b):
    return bool(H_all(np.equal(a, b)))


@handles('round', 'around')
def H_round(a, decimals=0, out=None):
    if decimals == 0:
        return _out(mapel(core.e_rint, a), out)
    k = 10 ** decimals
    return _out(np.rint(mk(a) * k) / k, out)


@handles('fix')
def H_fix(a, out=None):
    return np.trunc(a)


@handles('real')
def H_real(a):
    return unwrap0(mapel(core.e_real, lift(a)))


@handles('imag')
def H_imag(a):
    return unwrap0(mapel(core.e_imag, lift(a)))


@handles('iscomplexobj')
def H_iscomplexobj(a):
    return any(isinstance(x, (CV, complex)) for x in obj(a).reshape(-1))


@handles('isrealobj')
def H_isrealobj(a):
    return not H_iscomplexobj(a)


@handles('isreal')
def H_isreal(a):
    return np.equal(H_imag(a), 0)


@handles('real_if_close')
def H_real_if_close(a, tol=100):
    if bool(H_all(np.equal(H_imag(a), 0))):
        return H_real(a)
    return a


@handles('matmul')
def H_matmul(a, b, **k):
    a, b = obj(lift(a)), obj(lift(b))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if b.ndim > 2 or a.ndim > 2:
        a2 = a[None, :] if a.ndim == 1 else a
        b2 = b[:, None] if b.ndim == 1 else b
        sh = np.broadcast_shapes(a2.shape[:-2], b2.shape[:-2])
        a2 = np.broadcast_to(a2, sh + a2.shape[-2:])
        b2 = np.broadcast_to(b2, sh + b2.shape[-2:])
        r = np.empty(sh + (a2.shape[-2], b2.shape[-1]), dtype=object)
        for i in np.ndindex(*sh):
            r[i] = obj(_mm(a2[i], b2[i]))
        if a.ndim == 1:
            r = r[..., 0, :]
        if b.ndim == 1:
            r = r[..., 0]
        return pack(r)
    return _mm(a, b)


def _dot1(xs, ys):
    return core.sumlist([core.e_mul(x, y) for x, y in zip(xs, ys)])


def _mm(a, b):
    if a.shape[-1] != (b.shape[0] if b.ndim == 1 else b.shape[-2]):
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    if a.ndim == 1 and b.ndim == 1:
        return pyfloat(_dot1(a, b))
    if a.ndim == 1:
        r = np.empty(b.shape[1], dtype=object)
        for j in range(b.shape[1]):
            r[j] = _dot1(a, b[:, j])
        return pack(r)
    if b.ndim == 1:
        r = np.empty(a.shape[0], dtype=object)
        for i in range(a.shape[0]):
            r[i] = _dot1(a[i], b)
        return pack(r)
    r = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            r[i, j] = _dot1(a[i], b[:, j])
    return pack(r)


@handles('dot')
def H_dot(a, b, out=None):
    ao, bo = obj(lift(a)), obj(lift(b))
    if ao.ndim == 0 or bo.ndim == 0:
        return np.multiply(mk(ao), mk(bo))
    if ao.ndim <= 2 and bo.ndim <= 2:
        return _mm(ao, bo)
    return H_tensordot(ao, bo, axes=([ao.ndim - 1], [bo.ndim - 2 if bo.ndim > 1 else 0]))


@handles('vdot', 'inner')
def H_inner(a, b):
    ao, bo = obj(lift(a)), obj(lift(b))
    if ao.ndim == 1 and bo.ndim == 1:
        return pyfloat(_dot1(ao, bo))
    return _mm(ao, bo.T)


@handles('tensordot')
def H_tensordot(a, b, axes=2):
    a, b = obj(lift(a)), obj(lift(b))
    if isinstance(axes, int):
        ax = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax = [[x] if isinstance(x, int) else list(x) for x in axes]
    ax = [[i % a.ndim for i in ax[0]], [i % b.ndim for i in ax[1]]]
    ka = [i for i in range(a.ndim) if i not in ax[0]]
    kb = [i for i in range(b.ndim) if i not in ax[1]]
    n = int(np.prod([a.shape[i] for i in ax[0]], dtype=int))
    A = a.transpose(ka + ax[0]).reshape(-1, n)
    B = b.transpose(ax[1] + kb).reshape(n, -1)
    r = obj(_mm(A, B)).reshape([a.shape[i] for i in ka] + [b.shape[i] for i in kb])
    return pack(r)


@handles('einsum')
def H_einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ops = [obj(lift(o)) for o in ops]
    if '->' in spec:
        ins, outs = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(spec) - {','})
        outs = ''.join(c for c in letters if spec.count(c) == 1)
    ins = ins.split(',')
    if any('.' in i for i in ins):
        nb = max(o.ndim - len(i.replace('...', '')) for i, o in zip(ins, ops) if '.' in i)
        let = [c for c in 'ABCDEFGHIJ' if c not in spec][:nb]
        ins = [i.replace('...', ''.join(let[nb - (o.ndim - len(i.replace('...', ''))):]))
               for i, o in zip(ins, ops)]
        outs = outs.replace('...', ''.join(let)) if '.' in outs else ''.join(let) + outs
    dim = {}
    for i, o in zip(ins, ops):
        for c, d in zip(i, o.shape):
            dim[c] = max(dim.get(c, 1), d)
    summed = [c for c in dim if c not in outs]
    r = np.empty([dim[c] for c in outs], dtype=object)
    for oi in np.ndindex(*r.shape):
        env = dict(zip(outs, oi))
        terms = []
        for si in itertools.product(*[range(dim[c]) for c in summed]):
            env.update(zip(summed, si))
            v = None
            for i, o in zip(ins, ops):
                x = o[tuple(env[c] if o.shape[p] > 1 else 0 for p, c in enumerate(i))]
                v = x if v is None else core.e_mul(v, x)
            terms.append(v)
        r[oi] = core.sumlist(terms)
    return pack(r)


@handles('outer')
def H_outer(a, b, out=None):
    a, b = mk(lift(a)).reshape(-1), mk(lift(b)).reshape(-1)
    return a[:, None] * b[None, :]


@handles('trace')
def H_trace(a, offset=0, **k):
    return np.sum(mk(np.diagonal(obj(a), offset=offset)))


def conv1(a, b):
    """Full convolution of two 1-d lists."""
    a, b = list(a), list(b)
    n = len(a) + len(b) - 1
    terms = [[] for _ in range(n)]
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            terms[i + j].append(core.e_mul(x, y))
    return [core.sumlist(t) for t in terms]


def _crop(n, m, mode):
    if mode == 'full':
        return 0, n + m - 1
    if mode == 'valid':
        lo, hi = max(n, m) - min(n, m) + 1, min(n, m) - 1
        return hi, hi + lo
    return None


@handles('convolve')
def H_convolve(a, v, mode='full'):
    a, v = list(obj(lift(a)).reshape(-1)), list(obj(lift(v)).reshape(-1))
    if len(v) > len(a):
        a, v = v, a
    full = conv1(a, v)
    n, m = len(a), len(v)
    if mode == 'same':
        s = (m - 1) // 2
        return pack(obj(full[s:s + n]))
    s, e = _crop(n, m, mode)
    return pack(obj(full[s:e]))


@handles('correlate')
def H_correlate(a, v, mode='valid'):
    a = list(obj(lift(a)).reshape(-1))
    v = list(obj(lift(v)).reshape(-1))[::-1]
    full = conv1(a, [core.e_conj(x) for x in v])
    n, m = len(a), len(v)
    if mode == 'full':
        return pack(obj(full))
    if mode == 'same':
        k = max(n, m)
        s = (min(n, m) - 1) // 2 if n >= m else (min(n, m)) // 2
        return pack(obj(full[s:s + k]))
    s, e = _crop(n, m, 'valid')
    return pack(obj(full[s:e]))


@handles('diff')
def H_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = mk(lift(a))
    parts = [p for p in (prepend, a, append) if p is not np._NoValue]
    if len(parts) > 1:
        fx = []
        for p in parts:
            p = mk(lift(p))
            if p.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                p = mk(np.broadcast_to(p.view(np.ndarray), sh))
            fx.append(p)
        a = np.concatenate(fx, axis=axis)
    for _ in range(n):
        t = np.moveaxis(a, axis, 0)
        a = np.moveaxis(mk(obj(t[1:] - t[:-1])), 0, axis)
    return a


@handles('ediff1d')
def H_ediff1d(a, to_end=None, to_begin=None):
    return H_diff(mk(a).reshape(-1))


@handles('gradient')
def H_gradient(f, *a, **k):
    raise Unsupported('gradient')


@handles('interp')
def H_interp(*a, **k):
    raise Unsupported('interp')


@handles('trapezoid')
def H_trapz(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(mk(y), axis, 0)
    d = dx if x is None else np.diff(x)
    if x is not None and y.ndim > 1:
        d = mk(d).reshape((-1,) + (1,) * (y.ndim - 1))
    return (d * (y[1:] + y[:-1]) / 2).sum(axis=0)


@handles('cov')
def H_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = mk(lift(m))
    if X.ndim == 1:
        X = X[None, :]
    elif not rowvar:
        X = X.T
    if y is not None:
        Y = mk(lift(y))
        Y = Y[None, :] if Y.ndim == 1 else (Y if rowvar else Y.T)
        X = np.concatenate([X, Y], axis=0)
    n = X.shape[1]
    d = ddof if ddof is not None else (0 if bias else 1)
    X = X - X.mean(axis=1, keepdims=True)
    r = H_matmul(X, X.T) / (n - d)
    return r.squeeze() if isinstance(r, np.ndarray) else r


@handles('corrcoef')
def H_corrcoef(x, y=None, rowvar=True, **k):
    c = H_cov(x, y, rowvar)
    d = np.sqrt(mk(np.diagonal(obj(c))))
    return c / d[:, None] / d[None, :]


# -- linear algebra ----------------------------------------------------------------------------

def _exact(x):
    return SV(core.to_poly(x)) if not isinstance(x, SV) and core.finite(x) else x


def solve_lin(A, B):
    """Gaussian elimination, exact."""
    A = obj(A)
    B = obj(B)
    n = A.shape[0]
    one = B.ndim == 1
    M = [[_exact(A[i, j]) for j in range(n)] +
         [_exact(x) for x in ([B[i]] if one else B[i])] for i in range(n)]
    w = len(M[0])
    for c in range(n):
        piv = None
        for r in range(c, n):
            if type(M[r][c]) is SV and M[r][c].p.is_const() and M[r][c].p.t:
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if not core.is_zero(M[r][c]):
                    piv = r
                    break
        if piv is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[c], M[piv] = M[piv], M[c]
        for r in range(n):
            if r != c:
                f = core.e_div(M[r][c], M[c][c])
                if type(f) is SV and not f.p.t:
                    continue
                for k in range(c, w):
                    M[r][k] = core.e_sub(M[r][k], core.e_mul(f, M[c][k]))
    X = [[core.e_div(M[i][n + k], M[i][i]) for k in range(w - n)] for i in range(n)]
    if one:
        return pack(obj([x[0] for x in X]))
    return pack(obj(X))


@handles('linalg.solve')
def H_solve(a, b):
    return solve_lin(a, b)


@handles('linalg.inv')
def H_inv(a):
    return solve_lin(a, np.eye(len(obj(a))))


@handles('linalg.det')
def H_det(a):
    a = obj(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    return core.sumlist([core.e_mul(core.e_mul((-1.0) ** j, a[0, j]),
                                    H_det(np.delete(np.delete(a, 0, 0), j, 1))) for j in range(n)])


@handles('linalg.lstsq')
def H_lstsq(a, b, rcond=None):
    a, b = mk(lift(a)), mk(lift(b))
    x = solve_lin(H_matmul(a.T, a), H_matmul(a.T, b))
    res = b - H_matmul(a, x)
    return x, (res * res).sum(axis=0), a.shape[1], None


@handles('linalg.pinv')
def H_pinv(a, **k):
    a = mk(a)
    return solve_lin(H_matmul(a.T, a), a.T)


@handles('linalg.norm')
def H_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm')
    return np.sqrt((mk(x) * mk(x)).sum(axis=axis, keepdims=keepdims))


@handles('linalg.cholesky')
def H_cholesky(a, upper=False):
    a = obj(a)
    n = a.shape[0]
    fac = 1.0
    ent = [core.to_poly(v) for v in a.ravel()]
    if any(type(v) is SV for v in a.ravel()) and ent[0].t:
        # all entries proportional to the first one: a numeric matrix times a positive factor
        num = [alg.numeric(p)[0] for p in ent]
        m0, k0 = next(iter(num[0].items()))
        r = [q.get(m0, 0.0) / k0 for q in num]
        if all(all(abs(q.get(m, 0.0) - k * u) <= 1e-15 * abs(k0) for m, u in num[0].items())
               and all(m in num[0] for m in q) for q, k in zip(num, r)):
            if core.sgn(SV(ent[0])) <= 0:
                raise np.linalg.LinAlgError('Matrix is not positive definite')
            a = np.array(r).reshape(n, n)
            fac = core.e_sqrt(SV(ent[0]))
    if not any(isinstance(v, SYM) for v in a.ravel()):
        L = np.linalg.cholesky(np.array(a, dtype=float)).astype(object)
        if type(fac) is SV:
            for i in range(n):
                for j in range(i + 1):
                    L[i, j] = core.e_mul(L[i, j], fac)
        return pack(L.T.copy() if upper else L)
    L = np.empty((n, n), dtype=object)
    L[:] = 0.0
    for i in range(n):
        for j in range(i + 1):
            s = core.e_sub(a[i, j], core.sumlist([core.e_mul(L[i, k], L[j, k]) for k in range(j)]))
            if i == j:
                if core.sgn(s) <= 0:
                    raise np.linalg.LinAlgError('Matrix is not positive definite')
                L[i, j] = core.e_sqrt(s)
            else:
                L[i, j] = core.e_div(s, L[j, j])
    return pack(L.T.copy() if upper else L)


@handles('polyfit')
def H_polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    x, y = mk(lift(x)), mk(lift(y))
    V = mk(np.stack([obj(x ** (deg - i)) if deg > i else obj(np.ones(len(x))) for i in range(deg + 1)],
                    axis=1))
    if w is not None:
        w = mk(lift(w))
        V = V * w[:, None]
        y = y * (w[:, None] if y.ndim == 2 else w)
    if full or cov:
        raise Unsupported('polyfit full/cov')
    return solve_lin(H_matmul(V.T, V), H_matmul(V.T, y))


@handles('polyval')
def H_polyval(p, x):
    r = 0.0
    for c in obj(lift(p)):
        r = r * x + c
    return r


@handles('vander')
def H_vander(x, N=None, increasing=False):
    x = mk(x)
    N = N or len(x)
    cols = [x ** i if i else mk(np.ones(len(x))) for i in range(N)]
    if not increasing:
        cols = cols[::-1]
    return np.stack(cols, axis=1)


# -- FFT ---------------------------------------------------------------------------------------

def _turn(t):
    """cos(2 pi t), t rational, with exact symmetries."""
    t %= 1
    if t > Fr(1, 2):
        t = 1 - t
    s = 1.0
    if t > Fr(1, 4):
        t, s = Fr(1, 2) - t, -1.0
    if t == Fr(1, 4):
        return 0.0
    if t == 0:
        return s
    if t == Fr(1, 6):
        return s * 0.5
    if t > Fr(1, 8):
        return s * math.sin(2 * math.pi * float(Fr(1, 4) - t))
    return s * math.cos(2 * math.pi * float(t))


def _root(k, M):
    t = Fr(k % M, M)
    return _turn(t), _turn(t - Fr(1, 4))


def _dft(xs, n, inverse, scale):
    xs = list(xs)[:n] + [0.0] * max(0, n - len(xs))
    out = []
    sg = 1 if inverse else -1
    cplx = any(isinstance(x, (CV, complex, np.complexfloating)) for x in xs)
    for k in range(n):
        re, im = [], []
        for m, x in enumerate(xs):
            c, s = _root(k * m, n)
            s = sg * s
            x = CV.of(x)
            if c:
                re.append(core.e_mul(x.re, c))
                if cplx:
                    im.append(core.e_mul(x.im, c))
            if s:
                im.append(core.e_mul(x.re, s))
                if cplx:
                    re.append(core.e_mul(x.im, -s))
        r, i = core.sumlist(re) if re else 0.0, core.sumlist(im) if im else 0.0
        if scale != 1:
            r, i = core.e_mul(r, scale), core.e_mul(i, scale)
        out.append(CV(r, i))
    return out


def _fftscale(n, inverse, norm):
    norm = norm or 'backward'
    if norm == 'ortho':
        return 1 / math.sqrt(n)
    if norm == 'backward':
        return Fr(1, n) if inverse else 1
    return 1 if inverse else Fr(1, n)


def fft_any(a, n=None, axis=-1, norm=None, inverse=False, post=None, **k):
    a = obj(lift(a))
    n = n or a.shape[axis]
    r = along_c(lambda xs: (post or (lambda y: y))(_dft(xs, n, inverse, _fftscale(n, inverse, norm))),
                a, axis)
    return r


def along_c(fn, a, axis):
    t = np.moveaxis(a, axis, -1)
    rows = {i: fn(list(t[i])) for i in np.ndindex(*t.shape[:-1])}
    n = len(next(iter(rows.values())))
    r = np.empty(t.shape[:-1] + (n,), dtype=object)
    for i, v in rows.items():
        for j, x in enumerate(v):
            r[i + (j,)] = x
    return np.moveaxis(r, -1, axis).view(SymArray)


@handles('fft.fft')
def H_fft(a, n=None, axis=-1, norm=None, out=None, **k):
    return fft_any(a, n, axis, norm)


@handles('fft.ifft')
def H_ifft(a, n=None, axis=-1, norm=None, out=None, **k):
    return fft_any(a, n, axis, norm, inverse=True)


@handles('fft.rfft')
def H_rfft(a, n=None, axis=-1, norm=None, out=None, **k):
    return fft_any(a, n, axis, norm, post=lambda y: y[:len(y) // 2 + 1])


@handles('fft.irfft')
def H_irfft(a, n=None, axis=-1, norm=None, out=None, **k):
    a = obj(lift(a))
    m = n or 2 * (a.shape[axis] - 1)

    def fn(xs):
        xs = [CV.of(x) for x in xs[:m // 2 + 1]]
        xs[0] = CV(xs[0].re, 0.0)
        if m % 2 == 0:
            xs[m // 2] = CV(xs[m // 2].re, 0.0)
        full = xs + [xs[m - i].conjugate() for i in range(len(xs), m)]
        return [z.re for z in _dft(full, m, True, _fftscale(m, True, norm))]
    return along_c(fn, a, axis)


@handles('fft.fft2')
def H_fft2(a, s=None, axes=(-2, -1), norm=None, out=None):
    for ax in axes:
        a = fft_any(a, None, ax, norm)
    return a


@handles('fft.ifft2')
def H_ifft2(a, s=None, axes=(-2, -1), norm=None, out=None):
    for ax in axes:
        a = fft_any(a, None, ax, norm, inverse=True)
    return a


@handles('fft.fftn')
def H_fftn(a, s=None, axes=None, norm=None, out=None):
    return H_fft2(a, axes=axes if axes is not None else range(np.ndim(a)), norm=norm)


@handles('fft.ifftn')
def H_ifftn(a, s=None, axes=None, norm=None, out=None):
    return H_ifft2(a, axes=axes if axes is not None else range(np.ndim(a)), norm=norm)


# -- creation ----------------------------------------------------------------------------------

def _iskind(dtype):
    return dtype is not None and _kind(dtype) in 'biuSU'


def c_full(shape, v, dtype=None):
    shape = _shape(shape)
    if _iskind(dtype):
        return np.full(shape, v, dtype=dtype)
    if dtype is None and not issym(v) and isinstance(v, (bool, int, np.integer, np.bool_)):
        return np.full(shape, v)
    r = np.empty(shape, dtype=object)
    r[...] = obj(lift(v)) if np.ndim(v) or isinstance(v, SYM) else float(v) \
        if not isinstance(v, (complex, np.complexfloating)) else v
    return r.view(SymArray)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(x) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s)
    return (operator.index(s),)


def c_zeros(shape, dtype=float, order='C', **k):
    return np.zeros(_shape(shape), dtype=dtype) if _iskind(dtype) else c_full(shape, 0.0, float)


def c_ones(shape, dtype=float, order='C', **k):
    return np.ones(_shape(shape), dtype=dtype) if _iskind(dtype) else c_full(shape, 1.0, float)


def c_empty(shape, dtype=float, order='C', **k):
    if _iskind(dtype):
        return np.empty(_shape(shape), dtype=dtype)
    # uninitialised memory: an arbitrary recognisable value
    return c_full(shape, -987654.321, float)


def _like(a, dtype, shape=None):
    sh = np.shape(a) if shape is None else _shape(shape)
    if dtype is None:
        a = a if isinstance(a, np.ndarray) else np.asarray(obj(a)) if issym(a) else np.asarray(a)
        dtype = float if a.dtype == object else a.dtype
    return sh, dtype


@handles('zeros_like')
def H_zeros_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    sh, dt = _like(a, dtype, shape)
    return c_zeros(sh, dt)


@handles('ones_like')
def H_ones_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    sh, dt = _like(a, dtype, shape)
    return c_ones(sh, dt)


@handles('empty_like')
def H_empty_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    sh, dt = _like(a, dtype, shape)
    return c_empty(sh, dt)


@handles('full_like')
def H_full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None, **k):
    sh, dt = _like(a, dtype, shape)
    return c_full(sh, fill_value, dt)


def c_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **k):
    if issym(x):
        r = mk(obj(x).copy() if copy else obj(x))
        if dtype is not None and _kind(dtype) not in 'fO':
            r = cast(r, dtype)
        while r.ndim < ndmin:
            r = r[None]
        return r
    if dtype is not None and isinstance(dtype, type):
        kd = _kind(dtype)
        dtype = {'f': float, 'i': int, 'c': complex, 'b': bool}.get(kd, dtype) \
            if dtype.__module__ not in ('numpy',) else dtype
    if isinstance(x, (map, filter, zip)):
        return np.array(x, dtype=object)
    return np.array(x, dtype=dtype, copy=copy if copy else None, ndmin=ndmin)


@handles('copy')
def H_copy(a, order='K', subok=False):
    return mk(obj(lift(a)).copy())


def c_asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SymArray) and (dtype is None or _kind(dtype) in 'fO'):
        return x
    if issym(x):
        return c_array(x, dtype)
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return c_array(x, dtype, copy=False)


def c_arange(*a, dtype=None, **k):
    if not any(issym(x) for x in a):
        return np.arange(*a, **({} if dtype is None else {'dtype': _dt(dtype)}))
    st, sp, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    n = core.e_ceil(core.e_div(core.e_sub(sp, st), step))
    n = int(n)
    r = [core.e_add(st, core.e_mul(i, step)) for i in range(n)]
    if not issym(st) and not issym(step) and isinstance(st, int) and isinstance(step, int):
        return np.arange(st, st + n * step, step)[:n]
    return mk(r)


def _dt(d):
    return {'f': float, 'i': int, 'c': complex, 'b': bool}.get(_kind(d), d) \
        if isinstance(d, type) and d.__module__ != 'numpy' else d


@handles('linspace')
def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not issym(start) and not issym(stop):
        r = np.linspace(start, stop, operator.index(num), endpoint=endpoint, retstep=retstep, axis=axis)
        return r
    num = operator.index(num)
    if np.ndim(start) or np.ndim(stop):
        raise Unsupported('linspace of arrays')
    start, stop = unwrap0(start), unwrap0(stop)
    div = num - 1 if endpoint else num
    step = core.e_div(core.e_sub(stop, start), div) if div > 0 else NAN
    r = [core.e_add(start, core.e_mul(core.e_sub(stop, start), Fr(i, div))) if div > 0 else start
         for i in range(num)]
    r = mk(r)
    return (r, step) if retstep else r


@handles('logspace')
def c_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    e = c_linspace(start, stop, num, endpoint)
    return np.power(base, e)


@handles('geomspace')
def c_geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    return c_logspace(core.e_log10(start), core.e_log10(stop), num, endpoint)


@handles('apply_along_axis')
def H_apply_along_axis(fn, axis, arr, *a, **k):
    arr = mk(arr)
    t = np.moveaxis(arr.view(np.ndarray), axis, -1)
    rows = {i: fn(t[i].view(SymArray), *a, **k) for i in np.ndindex(*t.shape[:-1])}
    first = obj(next(iter(rows.values())))
    r = np.empty(t.shape[:-1] + first.shape, dtype=object)
    for i, v in rows.items():
        r[i] = obj(v) if first.ndim else v
    if first.ndim:
        r = np.moveaxis(r, -1, axis)
    return pack(r)


def _quantile(xs, q, method='linear'):
    if not xs or any(_isnan(x) for x in xs):
        return NAN
    s = _sorted(xs)
    pos = Fr(q).limit_denominator(10**9) * (len(s) - 1)
    i = math.floor(pos)
    f = pos - i
    if not f:
        return s[i]
    return core.e_add(s[i], core.e_mul(f, core.e_sub(s[i + 1], s[i])))


@handles('percentile', 'nanpercentile')
def H_percentile(a, q, axis=None, **k):
    return over(lambda xs: _quantile(_nn(xs), q / 100), a, axis)


@handles('quantile', 'nanquantile')
def H_quantile(a, q, axis=None, **k):
    return over(lambda xs: _quantile(_nn(xs), q), a, axis)


@handles('piecewise')
def H_piecewise(*a, **k):
    raise Unsupported('piecewise')


@handles('select')
def H_select(conds, choices, default=0):
    r = default
    for c, x in list(zip(conds, choices))[::-1]:
        r = H_where(c, x, r)
    return r


@handles('copyto')
def H_copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        w = np.broadcast_to(obj(where), dst.shape)
        dst[...] = mapel(core.e_where, w, np.broadcast_to(obj(lift(src)), dst.shape), dst)


@handles('putmask')
def H_putmask(a, mask, values):
    H_copyto(a, values, where=mask)


@handles('place')
def H_place(a, mask, vals):
    a[concrete_bool(mask)] = vals


@handles('result_type', 'can_cast', 'min_scalar_type', 'common_type')
def H_result_type(*a, **k):
    return np.dtype(float)


@handles('shape')
def H_shape(a):
    return obj(lift(a)).shape


@handles('ndim')
def H_ndim(a):
    return obj(lift(a)).ndim


@handles('size')
def H_size(a, axis=None):
    o = obj(lift(a))
    return o.size if axis is None else o.shape[axis]


@handles('sinc')
def H_sinc(a):
    return mapel(e_sinc, a)


@handles('angle')
def H_angle(*a, **k):
    raise Unsupported('angle')


@handles('histogram')
def H_histogram(*a, **k):
    raise Unsupported('histogram')
