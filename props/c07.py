import math
from symnp.harness import Case
from . import ref


def wavelets(E, n, wt, nrep=2, p=None, weighted=True, j1=1, j2=None, gamint=0.0, norm=1, miss=(), live=None):
    """Wavelet stage: coefficients, leaders, counts and eta_p of each column."""
    W = E.mod('wavelet')
    x = E.array('x', (n, nrep), nan=miss, live=live)
    kw = dict(p_exp=p, wt_name=wt, j1=j1, j2=j2, gamint=gamint, normalization=norm, weighted=weighted)
    r = W.wavelet_analysis(x, **kw)
    finite_p = p is not None and not math.isinf(p)
    if finite_p:
        for c in range(nrep):
            E.assume(r.eta_p[c] > 0)
    for c in range(nrep):
        for oned in (False, True):
            s = W.wavelet_analysis(x[:, c] if oned else x[:, [c]], **kw)
            # a realisation with missing values shortens the range kept for the group
            E.check(s.j2_eff >= r.j2_eff, 'j2_eff')
            if not miss:
                E.check(list(s.wt_coefs.values) == list(r.wt_coefs.values), 'scales')
                E.check(s.j2_eff == r.j2_eff, 'j2_eff')
            for j in r.wt_coefs.values:
                E.eq(r.wt_coefs.values[j][:, c], s.wt_coefs.values[j][:, 0], f'coefficients at scale {j}')
                E.eq(r.wt_coefs.nj[j][c], s.wt_coefs.nj[j][0], f'counts at scale {j}')
            if p is not None and s.j2_eff == r.j2_eff:
                for j in r.wt_leaders.values:
                    E.eq(r.wt_leaders.values[j][:, c], s.wt_leaders.values[j][:, 0], f'leaders at scale {j}')
                    E.eq(r.wt_leaders.nj[j][c], s.wt_leaders.nj[j][0], f'leader counts at scale {j}')
                if finite_p:
                    E.eq(r.eta_p[c], s.eta_p[0], 'eta_p')


def pick(E, mrq, cols):
    return ref.make_mrq(E, {j: v[:, cols] for j, v in mrq.values.items()}, mrq.formalism, mrq.gamint)


def estimators(E, counts, nrep=2, leaders=False, q=(2,), n_cumul=2, weighted=True, j1=1, j2=None, nan=None,
               gamint=0.0, perm=None):
    """Estimation stage on arbitrary coefficients."""
    M = E.mod('mfa')
    a, _ = ref.random_mrq(E, 'c', counts, nrep, nan, gamint=gamint)
    b = None
    if leaders:
        b, _ = ref.random_mrq(E, 'l', counts, nrep, nan, dom='pos', formalism='wavelet leader', gamint=gamint)
    top = j2 or len(counts)
    est = dict(j1=j1, weighted=weighted, n_cumul=n_cumul, q=E.np.array([float(v) for v in q]))
    d = M.mf_analysis(a, b, top, **est)
    groups = [[c] for c in range(nrep)]
    if nrep > 2:
        groups += [[0, nrep - 1], list(range(nrep - 1, -1, -1))]
    for g in groups:
        e = M.mf_analysis(pick(E, a, g), b and pick(E, b, g), top, **est)
        for name in ('dwt', 'lwt'):
            for k, c in enumerate(g):
                compare(E, getattr(d, name), getattr(e, name), c, k, name, q, n_cumul)


def compare(E, a, b, c, k, name, q, n_cumul):
    if a is None:
        E.check(b is None, f'{name} missing')
        return
    E.eq(a.structure.values[:, :, c], b.structure.values[:, :, k], f'{name} structure functions')
    E.eq(a.structure.zeta[:, c], b.structure.zeta[:, k], f'{name} zeta')
    E.eq(a.structure.intercept[:, c], b.structure.intercept[:, k], f'{name} intercept')
    if 2 in q:
        E.eq(a.structure.H[c], b.structure.H[k], f'{name} H')
    E.eq(a.cumulants.values[:, :, c], b.cumulants.values[:, :, k], f'{name} cumulants')
    E.eq(a.cumulants.log_cumulants[:, c], b.cumulants.log_cumulants[:, k], f'{name} log-cumulants')
    E.eq(a.spectrum.Dq[:, c], b.spectrum.Dq[:, k], f'{name} D(q)')
    E.eq(a.spectrum.hq[:, c], b.spectrum.hq[:, k], f'{name} h(q)')
    E.eq(a.hmin[c], b.hmin[k], f'{name} hmin')


def cases(tier):
    out = []

    def add(f, **k):
        name = f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items())
        out.append(Case(name, lambda E: f(E, **k), bound=str(k)))
    inf = math.inf
    for k in [dict(n=26, wt='db1'), dict(n=31, wt='db1', nrep=3, weighted=False), dict(n=48, wt='db2', j2=2),
              dict(n=64, wt='db2', p=inf), dict(n=50, wt='db1', nrep=3, p=inf, norm=2),
              dict(n=73, wt='db3', gamint=0.5), dict(n=40, wt='db1', p=2), dict(n=90, wt='db2', p=1, j1=2),
              dict(n=64, wt='db1', p=1.5, weighted=False), dict(n=44, wt='db1', nrep=3, p=2),
              dict(n=80, wt='db1', miss=[(20, 0), (21, 0), (60, 1)], j2=3),
              dict(n=80, wt='db1', p=inf, miss=[(33, 1)], j2=3), dict(n=60, wt='db1', nrep=4, weighted=False),
              dict(n=70, wt='db1', p=2, miss=[(40, 0), (11, 1)], j2=3)]:
        add(wavelets, **k)
    for k in [dict(counts=(5, 4, 3), q=(2, -1)), dict(counts=(4, 3, 3), nrep=3, q=(1, 2, 0.5), weighted=False),
              dict(counts=(6, 5, 4), q=(2, 0), n_cumul=3, leaders=True), dict(counts=(5, 4, 3, 3), j1=2, q=(3,), n_cumul=4),
              dict(counts=(6, 5, 5), leaders=True, q=(2, -2.5), nan={1: [(1, 0)], 2: [(4, 1)]}),
              dict(counts=(6, 5, 4, 3), nrep=3, leaders=True, q=(2, 1), nan={1: [(0, 2), (1, 2)], 3: [(3, 0)]}, j2=3),
              dict(counts=(4, 3), nrep=4, leaders=True, q=(2, 4), gamint=1.0), dict(counts=(5, 4, 3), q=(2,), n_cumul=1)]:
        add(estimators, **k)
    add(wavelets, n=300, wt='db1', nrep=3, p=inf, live=(140, 141))
    add(wavelets, n=500, wt='db2', nrep=2, live=(200,), weighted=False)
    add(wavelets, n=260, wt='db1', nrep=5, p=2, live=(100,))
    add(wavelets, n=36, wt='db1', nrep=8, p=inf)
    add(estimators, counts=(4, 3, 3), nrep=8, leaders=True, q=(2, 1))
    add(estimators, counts=(7, 6, 5, 4, 4, 3, 3, 2), nrep=2, q=(2, -1), j1=3, j2=7)
    if tier == 'thorough':
        for n in (60, 101):
            for wt in ('db1', 'db2'):
                for r in (2, 3):
                    for p in (None, inf, 2):
                        add(wavelets, n=n, wt=wt, nrep=r, p=p)
        for q, w in (((-2, 0, 2), True), ((0.7, 1, 2, 5), False)):
            for r in (2, 3, 5):
                add(estimators, counts=(9, 6, 4, 3), nrep=r, leaders=True, q=q, weighted=w, n_cumul=4)
    return out
