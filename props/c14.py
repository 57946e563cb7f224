import math
from symnp.harness import Case
from . import ref


def compare(E, d, e, a, q, n_cumul, name):
    """d: estimates of X, e: estimates of a X."""
    la, l2 = E.log(E.abs(a)), E.log2(E.abs(a))
    for i, v in enumerate(q):
        E.eq(e.structure.zeta[i], d.structure.zeta[i], f'{name} zeta({v})', atol=1e-8)
        E.eq(e.structure.logvalues[i], d.structure.logvalues[i] + v * l2, f'{name} log2 S(j, {v})', atol=1e-8)
        E.eq(e.spectrum.hq[i], d.spectrum.hq[i], f'{name} h({v})', atol=1e-8)
        E.eq(e.spectrum.Dq[i], d.spectrum.Dq[i], f'{name} D({v})', atol=1e-8)
    if 2 in q:
        E.eq(e.structure.H, d.structure.H, f'{name} H', atol=1e-8)
    for m in range(n_cumul):
        E.eq(e.cumulants.values[m], d.cumulants.values[m] + la if m == 0 else d.cumulants.values[m],
             f'{name} C{m + 1}(j)', atol=1e-5)
        E.eq(e.cumulants.log_cumulants[m], d.cumulants.log_cumulants[m], f'{name} c{m + 1}', atol=1e-5)
    E.eq(e.hmin, d.hmin, f'{name} hmin', atol=1e-8)


def signal(E, n, wt, p=None, q=(2,), n_cumul=2, nrep=1, j1=1, j2=None, weighted=True, gamint=0.0, norm=1, miss=()):
    """Wavelet stage (and estimates, without finite p) of x and a x."""
    W, M = E.mod('wavelet'), E.mod('mfa')
    a = E.real('a', 'nz')
    x = E.array('x', (n, nrep), nan=miss)
    kw = dict(p_exp=p, wt_name=wt, j1=j1, j2=j2, weighted=weighted, gamint=gamint, normalization=norm)
    r = W.wavelet_analysis(x, **kw)
    finite = p is not None and not math.isinf(p)
    if finite:
        for c in range(nrep):
            E.assume(r.eta_p[c] > 1e-3)
    s = W.wavelet_analysis(a * x, **kw)
    E.check(list(s.wt_coefs.values) == list(r.wt_coefs.values) and s.j2_eff == r.j2_eff, 'scales')
    for j in r.wt_coefs.values:
        E.eq(s.wt_coefs.values[j], a * r.wt_coefs.values[j], f'coefficients at scale {j}')
    if p is not None:
        E.check(list(s.wt_leaders.values) == list(r.wt_leaders.values), 'leader scales')
        for j in r.wt_leaders.values:
            E.eq(s.wt_leaders.values[j], E.abs(a) * r.wt_leaders.values[j], f'leaders at scale {j}')
    if finite:
        E.eq(s.eta_p, r.eta_p, 'eta_p', atol=1e-8)
        return
    est = dict(j1=j1, weighted=weighted, n_cumul=n_cumul, q=list(q))
    d = M.mf_analysis(r.wt_coefs, r.wt_leaders, r.j2_eff, **est)
    e = M.mf_analysis(s.wt_coefs, s.wt_leaders, s.j2_eff, **est)
    compare(E, d.dwt, e.dwt, a, q, n_cumul, 'dwt')
    if p is not None:
        compare(E, d.lwt, e.lwt, a, q, n_cumul, 'lwt')


def estimators(E, counts, q, n_cumul=3, nrep=1, nan=None, j1=1, j2=None, weighted=True):
    M = E.mod('mfa')
    a = E.real('a', 'nz')
    m, _ = ref.random_mrq(E, 'c', counts, nrep, nan)
    k = ref.make_mrq(E, {j: a * v for j, v in m.values.items()})
    est = dict(j1=j1, weighted=weighted, n_cumul=n_cumul, q=[float(v) for v in q])
    compare(E, M.mf_analysis(m, None, j2 or len(counts), **est).dwt,
            M.mf_analysis(k, None, j2 or len(counts), **est).dwt, a, q, n_cumul, 'dwt')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k), wide=True))
    inf = math.inf
    add(signal, n=28, wt='db1', q=(2, 0, -1), n_cumul=3)
    add(signal, n=33, wt='db1', q=(1, 0.5), nrep=2, weighted=False, norm=2)
    add(signal, n=48, wt='db2', q=(2, 3), j2=2, gamint=0.5)
    add(signal, n=70, wt='db3', q=(2,), j1=2)
    add(signal, n=52, wt='db1', q=(2, 1), p=inf, j2=3)
    add(signal, n=64, wt='db2', q=(2, -2), p=inf, weighted=False)
    add(signal, n=60, wt='db1', q=(2,), miss=[(20, 0), (21, 0)])
    add(signal, n=36, wt='db1', p=2)
    add(signal, n=60, wt='db1', p=1, j1=2, weighted=False)
    add(signal, n=50, wt='db1', p=1.5, nrep=2, gamint=0.3)
    add(signal, n=66, wt='db2', p=4)
    add(estimators, counts=(6, 5, 4, 3), q=(2, -1, 0), j1=2, j2=4)
    add(estimators, counts=(5, 4, 3), q=(0.7, -2.5, 12), nrep=2, weighted=False, n_cumul=4)
    add(estimators, counts=(6, 5, 4), q=(2, 5, 1), nan={1: [(0, 0)], 2: [(4, 0), (3, 0)]})
    add(estimators, counts=(6, 5, 4), q=(2, 0), nrep=2, nan={1: [(0, 0)], 2: [(4, 1), (3, 0)]}, n_cumul=2)
    if tier == 'thorough':
        for w in (True, False):
            add(signal, n=101, wt='db2', q=(2, 1, -1), p=inf, weighted=w, j1=2)
            add(signal, n=90, wt='db3', q=(2, 0.3), weighted=w, nrep=2)
            add(estimators, counts=(12, 9, 7, 5, 4), q=tuple(range(-5, 6)), weighted=w, j1=2, j2=4)
            add(signal, n=80, wt='db2', p=3, weighted=w)
    return out
