import math
from symnp.harness import Case
from . import ref


def run(E, n, wt, q=(2,), n_cumul=2, nrep=1, j1=1, j2=None, weighted=True, norm=1, miss=(), base=0.0, values=None):
    """gamint = base against base + gamma."""
    W, M = E.mod('wavelet'), E.mod('mfa')
    g = E.real('gamma', 'pos', 0.125, 2) if values is None else values
    x = E.array('x', (n, nrep), nan=miss)
    kw = dict(p_exp=None, wt_name=wt, j1=j1, j2=j2, weighted=weighted, normalization=norm)
    r = W.wavelet_analysis(x, gamint=base, **kw)
    s = W.wavelet_analysis(x, gamint=base + g, **kw)
    E.check(list(s.wt_coefs.values) == list(r.wt_coefs.values) and s.j2_eff == r.j2_eff, 'scales')
    for j in r.wt_coefs.values:
        E.eq(s.wt_coefs.values[j], E.pw(2.0, g * j) * r.wt_coefs.values[j], f'coefficients at scale {j}')
    E.eq(s.wt_coefs.gamint, base + g, 'recorded gamint')
    est = dict(j1=j1, weighted=weighted, n_cumul=n_cumul, q=[float(v) for v in q])
    d = M.mf_analysis(r.wt_coefs, None, r.j2_eff, **est).dwt
    e = M.mf_analysis(s.wt_coefs, None, s.j2_eff, **est).dwt
    for i, v in enumerate(q):
        E.eq(e.structure.zeta[i], d.structure.zeta[i] + v * g, f'zeta({v})', atol=1e-8)
        E.eq(e.spectrum.hq[i], d.spectrum.hq[i] + g, f'h({v})', atol=1e-8)
        E.eq(e.spectrum.Dq[i], d.spectrum.Dq[i], f'D({v})', atol=1e-8)
    if 2 in q:
        E.eq(e.structure.H, d.structure.H, 'H', atol=1e-8)
    E.eq(e.cumulants.log_cumulants[0], d.cumulants.log_cumulants[0] + g, 'c1', atol=1e-8)
    for m in range(1, n_cumul):
        E.eq(e.cumulants.log_cumulants[m], d.cumulants.log_cumulants[m], f'c{m + 1}', atol=1e-5)
    E.eq(e.hmin, d.hmin + g, 'hmin', atol=1e-8)


def recorded(E, n, p, wt='db1', nrep=1, j1=1, entry='stages', weighted=True, n_cumul=2):
    """Every H reported, from coefficients and from leaders, is zeta(2) / 2 minus the integration order."""
    g = E.real('gamma', 'nonneg', 0, 2)
    x = E.array('x', (n, nrep))
    wavelet_analysis = E.mod('wavelet').wavelet_analysis
    if p is not None and not math.isinf(p):
        wavelet_analysis = ref.opaque_leaders(E)
    if entry == 'stages':
        w = E.warned(lambda: wavelet_analysis(x, p_exp=p, wt_name=wt, j1=j1, gamint=g, weighted=weighted))[0]
        E.eq(w.wt_coefs.gamint, g, 'gamint recorded with the coefficients')
        if p is not None:
            E.eq(w.wt_leaders.gamint, g, 'gamint recorded with the leaders')
        d = E.mod('mfa').mf_analysis(w.wt_coefs, w.wt_leaders, w.j2_eff, j1, weighted, n_cumul, [2.0, 1.0])
    else:
        d = E.warned(lambda: E.mod('mfa').mf_analysis_full(x, j1, 10, gamint=g, p_exp=p, wt_name=wt, weighted=weighted,
                                                           q=[2.0, 1.0], n_cumul=n_cumul))[0]
    E.eq(d.dwt.structure.H, d.dwt.structure.zeta[0] / 2 - g, 'H of the coefficients')
    if p is not None:
        E.eq(d.lwt.structure.H, d.lwt.structure.zeta[0] / 2 - g, 'H of the leaders')


def cases(tier):
    out = []

    def add(f=None, **k):
        f = f or run
        out.append(Case((f.__name__ + ' ') * (f is not run) + ' '.join(f'{a}={b}' for a, b in k.items()),
                        lambda E: f(E, **k), bound=str(k), wide=True))
    add(recorded, n=30, p=None)
    add(recorded, n=33, p=math.inf, nrep=2)
    add(recorded, n=48, p=math.inf, wt='db2', entry='full', weighted=False)
    add(recorded, n=60, p=2, j1=2)
    add(recorded, n=40, p=1, entry='full')
    add(n=28, wt='db1', q=(2, 0, -1), n_cumul=3)
    add(n=33, wt='db1', q=(1, 0.5, 2), nrep=2, weighted=False, norm=2)
    add(n=48, wt='db2', q=(2, 3), j2=2, base=0.5)
    add(n=70, wt='db3', q=(2,), j1=2)
    add(n=110, wt='db2', q=(2, 4), j1=2, j2=3)
    add(n=60, wt='db1', q=(2,), miss=[(20, 0), (21, 0)])
    add(n=80, wt='sym4', q=(2, -2), norm=3)
    add(n=48, wt='db1', q=(2, 1), values=1)
    add(n=48, wt='db1', q=(2, 1), values=0.5, weighted=False)
    add(n=64, wt='db2', q=(2, 1), values=2.0, nrep=2)
    if tier == 'thorough':
        for w in (True, False):
            add(n=120, wt='db2', q=(2, 1, -1, 0.3), weighted=w, j1=2, n_cumul=3)
            add(n=150, wt='db3', q=(2, 0), weighted=w, nrep=2)
            add(n=160, wt='bior2.2', q=(2, 0), weighted=w, base=1.0)
    return out
