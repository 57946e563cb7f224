import math
from symnp.harness import Case
from . import ref
from .c18 import build

INF = math.inf
ASSUME = ['one realisation per signal, same number of valid entries in both signals at each scale; the coherence is '
          'reported when both lists of orders contain 0, 1 and 2']


def signed(E, counts, nan, gamint):
    """Coefficients of arbitrary magnitude and fixed, mixed signs."""
    out = []
    for name, ph in (('a', 0), ('b', 1)):
        rows = {i + 1: [[math.nan if (k, 0) in (nan or {}).get(i + 1, ()) else
                         E.real(f'{name}{i + 1}_{k}', 'pos') * (-1.0 if (k * 2 + ph * k + i) % 3 == ph else 1.0)]
                        for k in range(n)] for i, n in enumerate(counts)}
        out.append((ref.make_mrq(E, {j: E.arr(v) for j, v in rows.items()}, 'wavelet coef', gamint), rows))
    return out[0][0], out[1][0], out[0][1], out[1][1]


def get(E, counts, leaders, nan, gamint):
    return signed(E, counts, nan, gamint) if leaders == 'signed' else build(E, counts, leaders, nan, gamint)


def orders(E, name, q):
    return [E.real(f'{name}{i}', 'real', -2, 4, special=(0.0, 1.0, 2.0)) if v is None else v for i, v in enumerate(q)]


def pairs(E, r1, r2, j):
    return [(a[0], b[0]) for a, b in zip(r1[j], r2[j]) if not E.isnan(a[0]) and not E.isnan(b[0])]


def expected(E, r1, r2, q1, q2, j1, j2, weighted):
    nj = {j: len(ref.valid(E, r1[j], 0)) for j in r1}
    lg, fits = [], []
    for a in q1:
        lg.append([])
        fits.append([])
        for b in q2:
            S = {j: E.log2(ref.mean(E, [E.pw(E.abs(x), a) * E.pw(E.abs(y), b) for x, y in pairs(E, r1, r2, j)]))
                 for j in r1}
            lg[-1].append([S[j] for j in r1])
            fits[-1].append(ref.fit(E, S, nj, j1, j2, weighted))
    return lg, fits


def coherence(E, r1, r2, j):
    p = pairs(E, r1, r2, j)
    n = len(p)
    sxy = sum((x * y for x, y in p[1:]), p[0][0] * p[0][1])
    sxx = sum((x * x for x, y in p[1:]), p[0][0] * p[0][0])
    syy = sum((y * y for x, y in p[1:]), p[0][1] * p[0][1])
    return sxy / n, (sxx / n) * (syy / n)


def run(E, counts, q1=(0, 1, 2), q2=(0, 1, 2), leaders=False, nan=None, weighted=True, j1=1, j2=None, gamint=0.0,
        entry='class', swap=True):
    a, b, r1, r2 = get(E, counts, leaders, nan, gamint)
    top = j2 or len(counts)
    v1, v2 = orders(E, 'qa', q1), orders(E, 'qb', q2)
    S = E.mod('bivariate.bivariate_structurefunction').BiStructureFunction
    if entry == 'class':
        s = S(a, b, j1, top, E.arr(v1), E.arr(v2), weighted)
    else:
        s = S.from_dict(dict(mrq1=a, mrq2=b, q1=E.arr(v1), q2=E.arr(v2), j1=j1, j2=top, weighted=weighted, n_cumul=2))
    lg, fits = expected(E, r1, r2, v1, v2, j1, top, weighted)
    E.check([int(j) for j in s.j] == list(r1), 'scales')
    E.eq(s.logvalues, lg, 'log2 S')
    E.eq(s.zeta, [[f[0] for f in row] for row in fits], 'zeta')
    E.eq(s.intercept, [[f[1] for f in row] for row in fits], 'intercept')
    has = all(any(E.decide(v == n) for v in vs) for vs in (v1, v2) for n in (0, 1, 2))
    if not has:
        E.check(s.coherence is None, 'a coherence without the orders it needs')
    else:
        E.check(s.coherence is not None, 'no coherence')
        E.check(len(s.coherence) == len(counts), 'one coherence per scale')
        for i, j in enumerate(r1):
            num, den = coherence(E, r1, r2, j)
            E.eq(s.coherence[i], num / E.sqrt(den), f'coherence at scale {j}')
    if swap:
        t = S(b, a, j1, top, E.arr(v2), E.arr(v1), weighted)
        for x in range(len(v1)):
            for y in range(len(v2)):
                E.eq(t.zeta[y, x], s.zeta[x, y], 'zeta of the exchanged signals')
                E.eq(t.logvalues[y, x], s.logvalues[x, y], 'log2 S of the exchanged signals')
        if has:
            E.eq(t.coherence, s.coherence, 'coherence of the exchanged signals')


def bounds(E, n, same=False):
    """|coherence| <= 1, through Lagrange's identity; exactly 1 for a signal with itself."""
    x = [E.real(f'x{i}', 'nz') for i in range(n)]
    y = x if same else [E.real(f'y{i}', 'nz') for i in range(n)]
    a = ref.make_mrq(E, {1: E.arr([[v] for v in x]), 2: E.arr([[v] for v in x[:2]])})
    b = ref.make_mrq(E, {1: E.arr([[v] for v in y]), 2: E.arr([[v] for v in y[:2]])})
    q = E.arr([0.0, 1.0, 2.0])
    s = E.mod('bivariate.bivariate_structurefunction').BiStructureFunction(a, b, 1, 2, q, q, True)
    c = s.coherence[0]
    if same:
        E.eq(c, 1.0, 'coherence of a signal with itself', atol=1e-12)
        return
    gap = 0.0
    for i in range(n):
        for k in range(i):
            t = (x[i] * y[k] - x[k] * y[i]) * (x[i] * y[k] - x[k] * y[i])
            gap = gap + t
            E.assume(t >= 0)
    sxy = sum((u * v for u, v in zip(x[1:], y[1:])), x[0] * y[0])
    sxx = sum((u * u for u in x[1:]), x[0] * x[0])
    syy = sum((u * u for u in y[1:]), y[0] * y[0])
    E.eq(sxx * syy - sxy * sxy, gap, "Lagrange's identity", atol=1e-9)
    E.eq(c * c * (sxx * syy), sxy * sxy, 'squared coherence', atol=1e-9)
    E.check(sxy * sxy <= sxx * syy * (1 + 1e-12), 'a coherence outside [-1, 1]')
    E.check(c * c <= 1 + 1e-9, 'a coherence outside [-1, 1]')


def univariate(E, counts, q, weighted=True, nan=None, leaders=False, j1=1):
    """(q, 0) and (0, q) are the univariate exponents."""
    a, b, r1, r2 = get(E, counts, leaders, nan, 0.0)
    v = orders(E, 'q', q)
    top = len(counts)
    S = E.mod('bivariate.bivariate_structurefunction').BiStructureFunction
    U = E.mod('structurefunction').StructureFunction
    s = S(a, b, j1, top, E.arr(v), E.arr([0.0]), weighted)
    t = S(a, b, j1, top, E.arr([0.0]), E.arr(v), weighted)
    u = U(a, E.arr(v), j1, top, weighted)
    w = U(b, E.arr(v), j1, top, weighted)
    for i in range(len(v)):
        E.eq(s.zeta[i, 0], u.zeta[i, 0], 'zeta(q, 0)')
        E.eq(s.logvalues[i, 0], u.logvalues[i, :, 0], 'log2 S(q, 0)')
        E.eq(t.zeta[0, i], w.zeta[i, 0], 'zeta(0, q)')
        E.eq(t.logvalues[0, i], w.logvalues[i, :, 0], 'log2 S(0, q)')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k), wide=True))
    add(run, counts=(4, 3))
    add(run, counts=(4, 3, 3), weighted=False, q2=(2, 1, 0))
    add(run, counts=(3, 3), q1=(None,), q2=(None,), leaders=True)
    add(run, counts=(4, 3), q1=(None, 2), q2=(1, 3), weighted=False, leaders=True)
    add(run, counts=(5, 4, 3), q1=(-1, 0, 2.5), q2=(0.5, -2), j1=2, leaders='signed')
    add(run, counts=(5, 4, 3, 3), q1=(0, 1, 2, 3), q2=(2, 0, 1), j1=2, j2=3, gamint=0.5)
    add(run, counts=(5, 4, 3), leaders=True, q2=(0, 1, 2, -1), entry='dict')
    add(run, counts=(5, 4, 3), leaders=True, q1=(1, 2), q2=(0, 1, 2), weighted=False)
    add(run, counts=(6, 5, 4), nan={1: [(0, 0), (3, 0)], 2: [(4, 0)]})
    add(run, counts=(6, 5, 4), nan={1: [(1, 0)], 3: [(0, 0)]}, q1=(0, -1, 1.5), q2=(2, 0), leaders='signed')
    add(univariate, counts=(4, 3, 3), q=(None,), leaders=True)
    add(univariate, counts=(5, 4, 3), q=(2, 0, -1.5, 7), weighted=False, j1=2, leaders='signed')
    add(univariate, counts=(5, 4, 3), q=(2, 1, 0), nan={1: [(1, 0)], 2: [(3, 0)]}, leaders=True)
    add(bounds, n=2)
    add(bounds, n=4)
    add(bounds, n=5, same=True)
    add(run, counts=(7, 6, 5, 4, 4, 3, 3, 2), j1=4, j2=8)
    add(run, counts=(24, 12, 6), leaders=True)
    add(run, counts=(3, 3), q1=tuple(0.5 * k - 2 for k in range(9)), q2=tuple(k - 1 for k in range(6)), leaders=True)
    add(univariate, counts=(7, 6, 5, 4, 4, 3), q=(2, 1), j1=3, leaders=True)
    add(bounds, n=3)
    if tier == 'thorough':
        for w in (True, False):
            add(run, counts=(9, 7, 5, 4), q1=(0, 1, 2, None), q2=(0, 1, 2, 0.5), weighted=w, leaders=True)
            add(run, counts=(9, 7, 5, 4), q1=(0, 1, 2, -0.5), q2=(0, 1, 2, 3), weighted=w, leaders='signed')
            add(run, counts=(9, 7, 5, 4), q1=(0, 1, 2, 3), q2=(0, 1, 2, -3), weighted=w)
            add(run, counts=(8, 6, 5), q1=(0, 1, 2, -3, 4), q2=(0, 1, 2, 6), weighted=w, leaders=True,
                nan={1: [(0, 0), (7, 0)], 2: [(2, 0)]})
        add(univariate, counts=(8, 6, 5), q=(None, 2, 0), weighted=False, leaders=True)
        add(bounds, n=6)
        add(bounds, n=12, same=True)
    return out
