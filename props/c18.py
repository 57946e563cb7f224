import math
from symnp.harness import Case
from . import ref
from .c11 import size

INF = math.inf
ASSUME = ['one realisation per signal (the bivariate estimators pool realisations), both signals with '
          'the same number of valid entries at each scale, orders at least 2 for leaders']


def expected(E, r1, r2, M, j1, j2, weighted):
    """values[m1][m2] per scale and their regression, from the definition."""
    js = list(r1)
    vals = {}
    for j in js:
        pairs = [(a[0], b[0]) for a, b in zip(r1[j], r2[j])]
        l1 = [E.log(E.abs(a)) for a, b in pairs if not E.isnan(a)]
        l2 = [E.log(E.abs(b)) for a, b in pairs if not E.isnan(b)]
        c1 = ref.cumulants(E, l1, M)
        c2 = ref.cumulants(E, l2, M)
        both = [(E.log(E.abs(a)), E.log(E.abs(b))) for a, b in pairs if not E.isnan(a) and not E.isnan(b)]
        s = 0.0
        for a, b in both:
            s = s + a * b
        cov = s / len(both) - c1[0] * c2[0]
        v = [[0.0] * (M + 1) for _ in range(M + 1)]
        for m in range(1, M + 1):
            v[m][0] = c1[m - 1]
            v[0][m] = c2[m - 1]
        if M >= 1:
            v[1][1] = cov
        vals[j] = v
    nj = {j: len(ref.valid(E, r1[j], 0)) for j in js}
    slope = [[ref.fit(E, {j: vals[j][a][b] for j in js}, nj, j1, j2, weighted) for b in range(M + 1)]
             for a in range(M + 1)]
    return vals, slope


def check_cumul(E, c, r1, r2, M, j1, j2, weighted, leaders, msg=''):
    vals, fit = expected(E, r1, r2, M, j1, j2, weighted)
    E.check([int(j) for j in c.j] == list(r1), msg + 'scales')
    E.check(tuple(c.values.shape) == (M + 1, M + 1, len(r1)), msg + 'shape')
    for a in range(M + 1):
        for b in range(M + 1):
            tol = 1e-9 + size(E, r1, a + b) + size(E, r2, a + b)
            for i, j in enumerate(r1):
                E.eq(c.values[a, b, i], vals[j][a][b], f'{msg}C{a}{b} at scale {j}', atol=tol)
            E.eq(c.log_cumulants[a, b], fit[a][b][0] * math.log2(math.e), f'{msg}c{a}{b}', atol=10 * tol)
            E.eq(c.slope[a, b], fit[a][b][0], f'{msg}slope {a}{b}', atol=10 * tol)
            E.eq(c.intercept[a, b], fit[a][b][1], f'{msg}intercept {a}{b}', atol=10 * tol)
    for a, b in [(1, 1), (1, 0), (0, 1), (0, 0)] + [(2, 0), (0, 2)] * (M >= 2) + [(0, 3)] * (M >= 3):
        E.eq(getattr(c, f'c{a}{b}'), [c.log_cumulants[a, b]], f'{msg}attribute c{a}{b}')
        E.eq(getattr(c, f'C{a}{b}'), [[c.values[a, b, i] for i in range(len(r1))]], f'{msg}attribute C{a}{b}')
    if not leaders:
        E.check(c.rho_mf is None and c.RHO_MF is None, msg + 'rho of coefficients')
        return
    E.eq(c.rho_mf, [-c.log_cumulants[1, 1] / E.sqrt(E.abs(c.log_cumulants[2, 0] * c.log_cumulants[0, 2]))],
         msg + 'rho_mf')
    for i, j in enumerate(r1):
        E.eq(c.RHO_MF[i], c.values[1, 1, i] / E.sqrt(E.abs(c.values[2, 0, i] * c.values[0, 2, i])), f'{msg}RHO_MF at scale {j}')


def build(E, counts, leaders, nan, gamint):
    f, d = ('wavelet leader', 'pos') if leaders else ('wavelet coef', 'nz')
    a, r1 = ref.random_mrq(E, 'a', counts, 1, nan, d, f, gamint)
    b, r2 = ref.random_mrq(E, 'b', counts, 1, nan, d, f, gamint)
    return a, b, r1, r2


def values(E, counts, M=2, leaders=False, nan=None, weighted=True, j1=1, j2=None, gamint=0.0, entry='class'):
    a, b, r1, r2 = build(E, counts, leaders, nan, gamint)
    top = j2 or len(counts)
    C = E.mod('bivariate.bivariate_cumulants').BiCumulants
    if entry == 'class':
        c = C(a, b, M, j1, top, weighted)
    else:
        c = C.from_dict(dict(mrq1=a, mrq2=b, n_cumul=M, j1=j1, j2=top, weighted=weighted, q1=None, other=3))
    check_cumul(E, c, r1, r2, M, j1, top, weighted, leaders)


def exchange(E, counts, M=2, leaders=False, nan=None, weighted=True, j1=1, univariate=True):
    """Exchanging the signals transposes; univariate parts agree with the univariate estimator."""
    a, b, r1, r2 = build(E, counts, leaders, nan, 0.0)
    top = len(counts)
    C = E.mod('bivariate.bivariate_cumulants').BiCumulants
    c = C(a, b, M, j1, top, weighted)
    d = C(b, a, M, j1, top, weighted)
    for x in range(M + 1):
        for y in range(M + 1):
            E.eq(c.values[x, y], d.values[y, x], f'exchange C{x}{y}', atol=1e-8)
            E.eq(c.log_cumulants[x, y], d.log_cumulants[y, x], f'exchange c{x}{y}', atol=1e-8)
            E.eq(c.intercept[x, y], d.intercept[y, x], f'exchange intercept {x}{y}', atol=1e-8)
    if leaders:
        E.eq(c.RHO_MF, d.RHO_MF, 'exchange RHO_MF', atol=1e-8)
    U = E.mod('cumulants').Cumulants
    for k, m in enumerate((a, b)):
        u = U(m, M, j1, top, weighted)
        for o in range(1, M + 1):
            ix = (o, 0) if k == 0 else (0, o)
            E.eq(c.values[ix], u.values[o - 1, :, 0], f'univariate C{o} of signal {k + 1}', atol=1e-8)
            E.eq(c.log_cumulants[ix], u.log_cumulants[o - 1, 0], f'univariate c{o} of signal {k + 1}', atol=1e-8)


def rho_self(E, counts, weighted=True):
    """A signal with itself: covariance is the variance."""
    a, r1 = ref.random_mrq(E, 'a', counts, 1, None, 'pos', 'wavelet leader')
    c = E.mod('bivariate.bivariate_cumulants').BiCumulants(a, a, 2, 1, len(counts), weighted)
    E.eq(c.values[1, 1], c.values[2, 0], 'C11 of a signal with itself', atol=1e-9)
    E.eq(c.log_cumulants[1, 1], c.log_cumulants[0, 2], 'c11 of a signal with itself', atol=1e-9)
    for i in range(len(counts)):
        E.assume(c.values[2, 0, i] > 1e-6)
        E.eq(c.RHO_MF[i], 1.0, 'RHO_MF of a signal with itself', atol=1e-9)


def opaque(E, n, M, wt, p, j1, j2, weighted=True, gamint=0.0, norm=1, full=True):
    """bivariate_analysis(_full) of two signals."""
    x = E.array('x', (n, 1))
    y = E.array('y', (n, 1))
    W = E.mod('wavelet').wavelet_analysis
    if p is not None and not math.isinf(p):
        W = ref.opaque_leaders(E)
    B = E.mod('bivariate')
    kw = dict(p_exp=p, wt_name=wt, j1=j1, j2=j2, gamint=gamint, normalization=norm, weighted=weighted)
    w1, w2 = W(x, **kw), W(y, **kw)
    q1 = E.arr([0.0, 1.0, 2.0])
    q2 = E.arr([0.0, 1.0, 2.0, 3.0])
    if full:
        d = B.bivariate_analysis_full(x, y, q1=q1, q2=q2, n_cumul=M, **kw)
    else:
        d = B.bivariate_analysis(w1, w2, j1, weighted, M, q1, q2)
    top = min(w1.j2_eff, w2.j2_eff)
    C = E.mod('bivariate.bivariate_cumulants').BiCumulants
    S = E.mod('bivariate.bivariate_structurefunction').BiStructureFunction
    for name, a, b in (('dwt', w1.wt_coefs, w2.wt_coefs), ('lwt', w1.wt_leaders, w2.wt_leaders)):
        v = getattr(d, name)
        if a is None:
            E.check(v is None, 'a leader part without leaders')
            continue
        c = C(a, b, M, j1, top, weighted)
        s = S(a, b, j1, top, q1, q2, weighted)
        E.eq(v.cumulants.values, c.values, f'{name} cumulants')
        E.eq(v.cumulants.log_cumulants, c.log_cumulants, f'{name} log-cumulants')
        E.eq(v.cumulants.intercept, c.intercept, f'{name} intercepts')
        E.eq(v.structure.logvalues, s.logvalues, f'{name} log structure functions')
        E.eq(v.structure.zeta, s.zeta, f'{name} zeta')
        E.eq(v.structure.intercept, s.intercept, f'{name} zeta intercepts')
        E.eq(v.structure.coherence, s.coherence, f'{name} coherence')
        if c.rho_mf is None:
            E.check(v.cumulants.rho_mf is None, 'rho')
        else:
            E.eq(v.cumulants.RHO_MF, c.RHO_MF, 'RHO_MF')


def ranges(E, j2a, j2b, n=44, wt='db1', weighted=True):
    """Transforms with different j2: the regression stops at the smaller one."""
    x = E.array('x', (n, 1))
    y = E.array('y', (n, 1))
    W = E.mod('wavelet').wavelet_analysis
    w1 = W(x, p_exp=None, wt_name=wt, j1=1, j2=j2a, weighted=weighted)
    w2 = W(y, p_exp=None, wt_name=wt, j1=1, j2=j2b, weighted=weighted)
    d = E.mod('bivariate').bivariate_analysis(w1, w2, 1, weighted, 1, E.arr([1.0]), E.arr([1.0, 2.0]))
    E.check(d.lwt is None, 'a leader part without leaders')
    r1 = {int(j): [[v[k, 0]] for k in range(v.shape[0])] for j, v in w1.wt_coefs.values.items()}
    r2 = {int(j): [[v[k, 0]] for k in range(v.shape[0])] for j, v in w2.wt_coefs.values.items()}
    top = min(w1.j2_eff, w2.j2_eff)
    E.check(top == min(j2a, j2b), 'j2')
    check_cumul(E, d.dwt.cumulants, r1, r2, 1, 1, top, weighted, False)
    s = E.mod('bivariate.bivariate_structurefunction').BiStructureFunction(
        w1.wt_coefs, w2.wt_coefs, 1, top, E.arr([1.0]), E.arr([1.0, 2.0]), weighted)
    E.eq(d.dwt.structure.zeta, s.zeta, 'zeta')
    E.eq(d.dwt.structure.intercept, s.intercept, 'intercept of zeta')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k), wide=True))
    add(values, counts=(4, 3), M=1)
    add(values, counts=(4, 3, 3), M=2)
    add(values, counts=(4, 3), M=3, weighted=False, entry='dict')
    add(values, counts=(4, 3, 3), M=4, j1=2)
    add(values, counts=(5, 4, 3, 3), M=2, j1=2, j2=3, weighted=False, gamint=0.5)
    add(values, counts=(4, 3), M=2, leaders=True)
    add(values, counts=(4, 4, 3), M=3, leaders=True, weighted=False)
    add(values, counts=(6, 5), M=2, nan={1: [(0, 0), (3, 0)], 2: [(4, 0)]})
    add(values, counts=(5, 4, 4), M=3, nan={1: [(0, 0)], 3: [(1, 0)]}, leaders=True)
    add(exchange, counts=(4, 3), M=3)
    add(exchange, counts=(5, 4, 3), M=2, leaders=True, weighted=False)
    add(exchange, counts=(5, 4, 3), M=2, nan={1: [(2, 0)], 2: [(0, 0)]}, j1=2)
    add(exchange, counts=(3, 3), M=5)
    add(rho_self, counts=(4, 3, 3))
    add(rho_self, counts=(3, 3), weighted=False)
    add(ranges, j2a=3, j2b=2)
    add(ranges, j2a=2, j2b=3, weighted=False)
    add(ranges, j2a=2, j2b=2)
    add(opaque, n=24, M=2, wt='db1', p=None, j1=1, j2=2)
    add(opaque, n=36, M=2, wt='db1', p=INF, j1=1, j2=3, weighted=False, gamint=0.5)
    add(opaque, n=36, M=2, wt='db1', p=2, j1=1, j2=2, norm=2)
    add(opaque, n=60, M=3, wt='db1', p=INF, j1=2, j2=3, full=False)
    add(values, counts=(3, 3), M=6)
    add(values, counts=(7, 6, 5, 4, 4, 3, 3, 2), M=2, j1=4, j2=8)
    add(values, counts=(24, 12, 6), M=2, leaders=True)
    add(exchange, counts=(7, 6, 5, 4, 3, 3), M=2, j1=3, leaders=True)
    if tier == 'thorough':
        for lead in (True, False):
            add(values, counts=(8, 6, 4), M=4, leaders=lead)
            add(values, counts=(7, 5), M=5, leaders=lead, weighted=False, nan={1: [(1, 0), (5, 0)]})
            add(exchange, counts=(7, 5, 4), M=4, leaders=lead)
        add(opaque, n=60, M=3, wt='db2', p=INF, j1=1, j2=3)
        add(opaque, n=60, M=2, wt='db2', p=1.5, j1=1, j2=3, weighted=False, full=False)
    return out
