from symnp.harness import Case
from . import ref


def run(E, n, wt, p, nrep=1, norm=1, gamint=0.0, j1=1, j2=None, weighted=True, miss=(), live=None):
    W = E.mod('wavelet')
    x = E.array('x', (n, nrep), nan=miss, live=live)

    def go():
        return W.wavelet_analysis(x, p_exp=p, wt_name=wt, j1=j1, j2=j2, gamint=gamint,
                                  normalization=norm, weighted=weighted)
    r, msgs = E.warned(go)
    w = ref.analysis(E, x, p, wt, j1, j2, gamint, norm, weighted)
    E.eq(r.eta_p, w.eta, 'eta_p')
    E.check(r.j2_eff == w.j2_eff, 'j2_eff')
    E.check(r.wt_leaders.formalism == 'wavelet p-leader', 'formalism')
    pos = True
    for c in range(nrep):
        if not E.decide(r.eta_p[c] > 0):
            pos = False
            break
    said = any('eta' in m for m in msgs)
    if pos:
        E.check(not said, 'a warning about eta_p although it is positive')
        exp = {}
        for j, rows in w.leaders.items():
            f = []
            for c in range(nrep):
                e = r.eta_p[c]
                z = (1 - E.pw(2.0, e * -j)) / (1 - E.pw(2.0, -e))
                f.append(E.pw(z, -1 / p))
            exp[j] = [[v if E.isnan(v) else v * f[c] for c, v in enumerate(row)] for row in rows]
    else:
        E.check(said, 'no warning although eta_p is not positive')
        exp = w.leaders
    ref.check_mrq(E, r.wt_leaders, exp, 'p-leaders')


def cases(tier):
    g = [dict(n=40, wt='db1', p=2), dict(n=43, wt='db1', p=1), dict(n=56, wt='db1', p=2, weighted=False),
         dict(n=64, wt='db1', p=0.5, gamint=0.5), dict(n=52, wt='db1', p=2, nrep=2),
         dict(n=80, wt='db2', p=2, j1=2), dict(n=75, wt='db2', p=1.5, norm=2), dict(n=70, wt='db1', p=3),
         dict(n=100, wt='db1', p=1, j1=2, j2=3), dict(n=90, wt='db1', p=4, weighted=False),
         dict(n=88, wt='db2', p=1, miss=[(40, 0)]), dict(n=120, wt='db3', p=2),
         dict(n=150, wt='db3', p=0.7, weighted=False), dict(n=64, wt='db1', p=2.5, nrep=2, weighted=False),
         dict(n=420, wt='db1', p=2, live=(200, 201)), dict(n=500, wt='db1', p=1, live=(130,), j1=3, nrep=2),
         dict(n=400, wt='db1', p=2, live=(250,), j1=2, j2=6, weighted=False), dict(n=700, wt='db2', p=3, live=(300,)),
         dict(n=131, wt='db2', p=1, j1=1, j2=2, norm=2, gamint=1.0)]
    if tier == 'thorough':
        g += [dict(n=n, wt=wt, p=p, weighted=w)
              for n in (60, 97, 140) for wt in ('db1', 'db2', 'sym3') for p in (0.5, 1, 2, 2.2, 3)
              for w in (True, False) if ref.max_level(n, wt) >= 3 or wt != 'sym3' and n > 60]
    return [Case(' '.join(f'{a}={b}' for a, b in k.items()), lambda E, k=k: run(E, **k), bound=str(k)) for k in g]
