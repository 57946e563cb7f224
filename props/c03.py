import math
from symnp.harness import Case
from . import ref


def run(E, n, wt, miss, p=None, norm=1, gamint=0.0, nrep=1, oned=False):
    """miss: list of (sample, realisation)."""
    W = E.mod('wavelet')
    shape = (n,) if oned else (n, nrep)
    nan = [(m[0],) if oned else tuple(m) for m in miss]
    x = E.array('x', shape, nan=nan)
    full = x.copy()
    for m in nan:
        full[m] = E.real('fill_' + '_'.join(map(str, m)))
    kw = dict(p_exp=p, wt_name=wt, j1=1, j2=None, gamint=gamint, normalization=norm, weighted=False)
    r = W.wavelet_analysis(x, **kw)
    s = W.wavelet_analysis(full, **kw)
    w = ref.analysis(E, x, None, wt, 1, None, gamint, norm, False)
    vals = r.wt_coefs.values
    E.check(len(vals) >= 1, 'no scale was analysed')
    if p is None:
        E.check([int(j) for j in vals] == list(w.coefs), 'scales')
    hit = 0
    for j in vals:
        d = w.coefs[j]
        a = [[E.isnan(vals[j][k, c]) for c in range(nrep)] for k in range(vals[j].shape[0])]
        b = [[E.isnan(v) for v in row] for row in d]
        E.check(a == b, f'missing coefficients at scale {j}')
        E.check(j in s.wt_coefs.values, f'scale {j} vanishes when nothing is missing')
        u, v = [], []
        for k in range(vals[j].shape[0]):
            for c in range(nrep):
                if not E.isnan(vals[j][k, c]):
                    u.append(vals[j][k, c])
                    v.append(s.wt_coefs.values[j][k, c])
                elif not E.isnan(s.wt_coefs.values[j][k, c]):
                    hit += 1
        E.eq(u, v, f'coefficients at scale {j} away from the missing samples')
        E.eq(r.wt_coefs.nj[j], ref.nvalid(E, d), f'count of coefficients at scale {j}')
    E.check(hit > 0, 'no coefficient became missing')
    if p is not None:
        for j, v in r.wt_leaders.values.items():
            rows = [[v[k, c] for c in range(nrep)] for k in range(v.shape[0])]
            E.eq(r.wt_leaders.nj[j], ref.nvalid(E, rows), f'count of leaders at scale {j}')
            L = ref.leaders(E, w.coefs, j)
            E.check([[E.isnan(t) for t in row] for row in rows] ==
                    [[E.isnan(t) for t in row] for row in L], f'missing leaders at scale {j}')


def cases(tier):
    g = [dict(n=50, wt='db1', miss=[(20, 0)]), dict(n=64, wt='db1', miss=[(7, 0), (30, 1), (31, 1)], nrep=2),
         dict(n=80, wt='db2', miss=[(41, 0)], p=math.inf), dict(n=101, wt='db2', miss=[(k, 0) for k in range(50, 58)]),
         dict(n=96, wt='db2', miss=[(3, 0), (90, 1)], nrep=2, p=math.inf, norm=2),
         dict(n=120, wt='db3', miss=[(60, 0)], gamint=0.5), dict(n=131, wt='db3', miss=[(3, 0), (100, 0)], oned=True),
         dict(n=150, wt='db3', miss=[(75, 0), (76, 0), (100, 0)], p=math.inf),
         dict(n=128, wt='bior2.2', miss=[(64, 0)]), dict(n=140, wt='sym4', miss=[(30, 0), (31, 0)], norm=2),
         dict(n=260, wt='db1', miss=[(k, 0) for k in (17, 100, 101, 250)], p=math.inf),
         dict(n=90, wt='db1', miss=[(45, 0)], p=2, gamint=0.2)]
    if tier == 'thorough':
        g += [dict(n=n, wt=wt, miss=m, p=p, nrep=2)
              for n in (111, 170, 233) for wt in ('db1', 'db2', 'db3', 'coif1')
              for m in ([(50, 0)], [(k, k % 2) for k in range(40, 52)], [(20, 0), (80, 1), (81, 1)])
              for p in (None, math.inf)]
        g += [dict(n=600, wt='db2', miss=[(k, 0) for k in range(0, 600, 97)], p=math.inf)]
    return [Case(' '.join(f'{a}={b}' for a, b in k.items()), lambda E, k=k: run(E, **k), bound=str(k)) for k in g]
