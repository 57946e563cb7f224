import itertools
import math
from symnp.harness import Case
from . import ref


def power(E, e, n=3, dom='real', nan=(), shape=None, kind='py'):
    """fast_power(array, e), base by base."""
    U = E.mod('utils')
    shape = shape or (n,)
    x = E.array('x', shape, dom, nan=nan)
    if e is None:
        ee = E.real('e', 'real', -4, 12, special=(0.0, 1.0, 2.0, 0.5, -1.0, 3.0))
    else:
        ee = {'py': lambda v: v, 'np': lambda v: E.np.array([v])[0], 'float': float}[kind](e)
    snap = E.snapshot(x)
    r = U.fast_power(x, ee)
    E.check(tuple(r.shape) == tuple(shape), 'shape')
    import numpy as np
    for i in np.ndindex(*shape):
        v = x[i]
        if E.isnan(v):
            E.check(E.isnan(r[i]), f'a missing entry became a number for exponent {e}')
            continue
        if e is not None and float(e).is_integer():
            k = int(e)
            w = 1.0
            for _ in range(abs(k)):
                w = w * v
            if k < 0:
                w = 1 / w
        elif e == 0.5:
            w = E.sqrt(v)
        else:
            w = E.pw(v, ee)
        E.eq(r[i], w, f'power {e}')
    E.unchanged(x, snap, 'base array')
    # the result is a fresh value: a second evaluation gives the same
    E.eq(U.fast_power(x, ee), r, 'second evaluation')


def overlap(E, a, b, n=2):
    """x^a x^b = x^(a+b) whatever the code paths of the three exponents."""
    f = E.mod('utils').fast_power
    x = E.array('x', n, 'pos')
    E.eq(f(x, a) * f(x, b), f(x, a + b), f'{a} + {b}')


def reduce(E, name, shape, axis, nan=(), dom='real', keep=False):
    U = E.mod('utils')
    x = E.array('x', shape, dom, nan=nan)
    snap = E.snapshot(x)
    kw = {'axis': axis}
    r = getattr(U, name)(x, **kw)
    E.unchanged(x, snap, 'array')
    import numpy as np
    ax = axis % len(shape)
    rest = [d for i, d in enumerate(shape) if i != ax]
    E.check(tuple(r.shape) == tuple(rest), 'shape')
    for ix in np.ndindex(*rest):
        vals = [x[ix[:ax] + (k,) + ix[ax:]] for k in range(shape[ax])]
        vals = [v for v in vals if not E.isnan(v)]
        if not vals:
            E.check(E.isnan(r[ix]), 'all entries missing must give a missing value')
        elif name == 'fixednansum':
            E.eq(r[ix], sum(vals[1:], vals[0]), 'sum', atol=1e-9)
        else:
            E.eq(r[ix], E.max(vals), 'maximum')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    for e in (0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 12):
        add(power, e=e, nan=((1,),))
        add(power, e=e, kind='float', nan=((0,),))
    for e in (0, 3, 6, 10, 2):
        add(power, e=e, kind='np', shape=(2, 2), nan=((0, 1), (1, 1)))
    for e in (-1, -2, -3, -7, -10):
        add(power, e=e, dom='nz', nan=((2,),))
        add(power, e=e, dom='nz', kind='float')
    for e in (0.5, 1.5, 2.5, -0.5, -1.7, 0.1, 0.9, 3.25):
        add(power, e=e, dom='pos', nan=((0,),), shape=(3,))
    add(power, e=None, dom='pos', n=2)
    add(power, e=0, nan=((0, 0), (0, 1)), shape=(1, 2))
    add(power, e=0.0, nan=((0,), (1,), (2,)))
    add(power, e=2, shape=(2, 3), nan=((1, 2),))
    for a, b in ((3, 2), (10, 1), (0.5, 0.5), (-1, 2), (1.5, 1.5), (0, 7), (6, -3)):
        add(overlap, a=a, b=b)
    for f in ('fixednansum', 'fixednanmax'):
        add(reduce, name=f, shape=(3, 1), axis=0, nan=())
        add(reduce, name=f, shape=(3, 2), axis=0, nan=((0, 0), (2, 1)))
        add(reduce, name=f, shape=(3, 2), axis=0, nan=((0, 0), (1, 0), (2, 0)))
        add(reduce, name=f, shape=(2, 3), axis=1, nan=((1, 0), (1, 1), (1, 2), (0, 1)))
        add(reduce, name=f, shape=(2, 2, 3), axis=-1, nan=((0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 1, 2)))
        add(reduce, name=f, shape=(2, 2, 2), axis=1, nan=((0, 0, 0), (0, 1, 0)))
        add(reduce, name=f, shape=(2, 2), axis=0, nan=((0, 0), (0, 1), (1, 0), (1, 1)))
    if tier == 'thorough':
        for e in range(-12, 16):
            add(power, e=e, dom='nz', nan=((1,),), n=4)
        add(power, e=None, dom='pos', n=3)
        for f in ('fixednansum', 'fixednanmax'):
            add(reduce, name=f, shape=(5, 4), axis=0, nan=((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (1, 2), (4, 3)))
            add(reduce, name=f, shape=(4, 3, 3), axis=0, nan=((0, 0, 0), (3, 1, 1)))
    return out
