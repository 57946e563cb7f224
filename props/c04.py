import math
from symnp.harness import Case
from . import ref


def run(E, n, wt, miss=(), nrep=1, norm=1, gamint=0.0, j2=None, oned=False):
    W = E.mod('wavelet')
    nan = [(m[0],) if oned else tuple(m) for m in miss]
    x = E.array('x', (n,) if oned else (n, nrep), nan=nan)
    r = W.wavelet_analysis(x, p_exp=math.inf, wt_name=wt, j1=1, j2=j2, gamint=gamint,
                           normalization=norm, weighted=False)
    w = ref.analysis(E, x, math.inf, wt, 1, j2, gamint, norm, False)
    E.check(len(r.wt_leaders.values) >= 1, 'no leader')
    ref.check_mrq(E, r.wt_leaders, w.leaders, 'leaders')
    E.check(r.wt_leaders.formalism == 'wavelet leader', 'formalism')
    for j, v in r.wt_leaders.values.items():
        E.check(v.shape[0] == r.wt_coefs.values[j].shape[0] - 2, f'number of leaders at scale {j}')
    E.check(r.eta_p is None, 'eta_p without p-leaders')


def cases(tier):
    g = [dict(n=26, wt='db1'), dict(n=40, wt='db1', nrep=2), dict(n=53, wt='db1', oned=True),
         dict(n=64, wt='db2'), dict(n=75, wt='db2', nrep=2, norm=2), dict(n=90, wt='db3', gamint=0.5),
         dict(n=101, wt='db3', j2=1), dict(n=97, wt='db1', miss=[(30, 0), (31, 0), (60, 0)]),
         dict(n=110, wt='db2', miss=[(50, 0), (77, 1)], nrep=2), dict(n=99, wt='sym2', gamint=-0.5, norm=2),
         dict(n=120, wt='bior1.3'), dict(n=147, wt='db2', miss=[(k, 0) for k in range(60, 72)]),
         dict(n=400, wt='db1', norm=2), dict(n=420, wt='db2'), dict(n=50, wt='db1', nrep=4), dict(n=800, wt='db1', gamint=0.5),
         dict(n=200, wt='db1'), dict(n=161, wt='db3', miss=[(100, 0)])]
    if tier == 'thorough':
        g += [dict(n=n, wt=wt, miss=m, nrep=2, norm=nm)
              for n in (83, 130, 171, 220) for wt in ('db1', 'db2', 'db3', 'rbio1.3')
              for m in ([], [(41, 0), (60, 1), (61, 1)]) for nm in (1, 2)]
        g += [dict(n=400, wt='db1'), dict(n=420, wt='db2'), dict(n=333, wt='db4')]
    return [Case(' '.join(f'{a}={b}' for a, b in k.items()), lambda E, k=k: run(E, **k), bound=str(k)) for k in g]
