import math
from symnp.harness import Case
from . import ref
from .c18 import build

ASSUME = ['log-cumulants with c20 c02 != c11^2; the surface is compared with the formula over the object\'s own log-cumulants, '
          'which C18 ties to the data']


def obj(E, M=2, counts=(3, 3), leaders=True, given=True):
    a, b, _, _ = build(E, counts, leaders, None, 0.0)
    c = E.mod('bivariate.bivariate_cumulants').BiCumulants(a, b, M, 1, len(counts), True)
    if given:
        # arbitrary log-cumulants
        v = [[0.0] * (M + 1) for _ in range(M + 1)]
        for i, k in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 2)):
            v[i][k] = E.real(f'c{i}{k}', 'real', -3, 3)
        c.log_cumulants = E.arr(v)
    return c


def surface(E, c, hs):
    l = c.log_cumulants
    b = l[2, 0] * l[0, 2] - l[1, 1] * l[1, 1]
    out = []
    for h1 in hs:
        row = []
        for h2 in hs:
            u, v = (h1 - l[1, 0]) / b, (h2 - l[0, 1]) / b
            row.append(1 + l[0, 2] * b / 2 * u * u + l[2, 0] * b / 2 * v * v - l[1, 1] * b * u * v)
        out.append(row)
    return out


def nondegenerate(E, c, eps=1e-3):
    l = c.log_cumulants
    b = l[2, 0] * l[0, 2] - l[1, 1] * l[1, 1]
    if E.sym:
        E.assume(b != 0)
    else:
        E.assume(abs(b) > eps)


def grid(E, res, support=None, M=2, given=True):
    c = obj(E, M, given=given)
    nondegenerate(E, c)
    lo, hi = (0.0, 1.5) if support is None else support
    if lo is None:
        lo, hi = E.real('lo', 'real', -2, 2), E.real('hi', 'real', 3, 5)
    hs, L = c.compute_legendre((lo, hi), res) if support is not None else c.compute_legendre(resolution=res)
    E.check(len(hs) == res and tuple(L.shape) == (res, res), 'requested resolution')
    want = [lo + (hi - lo) * i / (res - 1) for i in range(res)]
    E.eq(hs, want, 'evenly spaced support', atol=1e-12)
    E.eq(L, surface(E, c, want), 'surface', tol=1e-6, atol=1e-6)


def default(E):
    c = obj(E)
    nondegenerate(E, c)
    hs, L = c.compute_legendre()
    E.check(len(hs) == 100 and tuple(L.shape) == (100, 100), 'default resolution')
    E.eq([hs[0], hs[99], hs[33]], [0.0, 1.5, 0.5], 'default support', atol=1e-12)
    want = surface(E, c, [0.0, 0.5, 1.5])
    for i, a in enumerate((0, 33, 99)):
        for k, b in enumerate((0, 33, 99)):
            E.eq(L[a, b], want[i][k], 'surface on the default grid', tol=1e-6, atol=1e-6)


def apex(E, h0=None):
    """1 at (c10, c01)."""
    c = obj(E)
    h = E.real('h', 'real', -1, 2)
    l = c.log_cumulants
    v = [[0.0, h, l[0, 2]], [h, l[1, 1], 0.0], [l[2, 0], 0.0, 0.0]]
    c.log_cumulants = E.arr(v)
    nondegenerate(E, c)
    hs, L = c.compute_legendre((h, h + 1), 2)
    E.eq(L[0, 0], 1.0, 'value at (c10, c01)', atol=1e-6)
    hs, L = c.compute_legendre((h - 1, h + 1), 3)
    E.eq(L[1, 1], 1.0, 'value at (c10, c01)', tol=1e-6, atol=1e-5)


def transposed(E, res=3):
    """Exchanging the signals transposes the surface; rows follow h1."""
    c, d = obj(E), obj(E)
    l = c.log_cumulants
    d.log_cumulants = E.arr([[l[k, i] for k in range(3)] for i in range(3)])
    nondegenerate(E, c)
    _, L = c.compute_legendre((-1.0, 2.0), res)
    _, K = d.compute_legendre((-1.0, 2.0), res)
    for i in range(res):
        for k in range(res):
            E.eq(L[i, k], K[k, i], 'transposed surface', tol=1e-6, atol=1e-6)


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    add(grid, res=2)
    add(grid, res=3, support=(0.2, 0.9))
    add(grid, res=4, support=(None, None))
    add(grid, res=5, support=(-1.0, 1.0), M=3)
    add(grid, res=2, given=False)
    add(default)
    add(apex)
    add(transposed, res=3)
    if tier == 'thorough':
        add(grid, res=8)
        add(grid, res=6, support=(None, None), M=4)
        add(grid, res=3, given=False, M=3)
        add(transposed, res=5)
    return out
