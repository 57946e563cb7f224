import math
from symnp.harness import Case
from . import ref


def run(E, n, wt, levels_j2=None, nrep=1, norm=1, gamint=0.0, p=None, oned=False, sym_gamma=False):
    x = E.array('x', (n,) if oned else (n, nrep))
    g = E.real('gamma', lo=-2, hi=2) if sym_gamma else gamint
    W = E.mod('wavelet')
    r = W.wavelet_analysis(x, p_exp=p, wt_name=wt, j1=1, j2=levels_j2, gamint=g,
                           normalization=norm, weighted=False)
    w = ref.analysis(E, x, None, wt, 1, levels_j2, g, norm, False)
    top = len(r.wt_coefs.values)
    E.check(top >= 1, 'no scale was analysed')
    ref.check_mrq(E, r.wt_coefs, {j: w.coefs[j] for j in list(w.coefs)[:top]}, 'coefficients')
    if p is None:
        E.check(top == len(w.coefs), 'number of scales')


def case(name, **k):
    return Case(name, lambda E: run(E, **k), bound=str(k))


def cases(tier):
    out = []
    grid = [
        dict(n=40, wt='db1'), dict(n=41, wt='db1', nrep=2), dict(n=64, wt='db2', nrep=2),
        dict(n=97, wt='db2', p=math.inf, levels_j2=2), dict(n=90, wt='db3', oned=True),
        dict(n=129, wt='db3', nrep=2, norm=2), dict(n=120, wt='db4', norm=2, gamint=0.5),
        dict(n=131, wt='db5', gamint=-0.3), dict(n=112, wt='sym4', p=2, norm=1),
        dict(n=117, wt='bior2.2', p=math.inf), dict(n=100, wt='coif1', norm=3, gamint=1.0),
        dict(n=121, wt='rbio1.3', norm=0.5), dict(n=128, wt='db3', sym_gamma=True),
        dict(n=210, wt='db2', sym_gamma=True, p=math.inf, norm=2),
        dict(n=300, wt='db3', p=math.inf), dict(n=301, wt='db3', p=1, gamint=0.25),
        dict(n=160, wt='db3', norm=math.inf), dict(n=259, wt='db1', gamint=0.7, norm=2),
        dict(n=400, wt='db1', norm=2, gamint=0.5), dict(n=800, wt='db2'), dict(n=780, wt='db1', p=math.inf),
        dict(n=290, wt='db7'), dict(n=700, wt='db10', norm=2), dict(n=430, wt='db1', nrep=3), dict(n=333, wt='sym6', nrep=1, p=0.5),
    ]
    if tier == 'thorough':
        grid += [dict(n=n, wt=wt, p=p, norm=nm, gamint=g)
                 for n in (57, 86, 143, 200, 255, 256, 257, 402)
                 for wt, p, nm, g in (('db1', None, 1, 0.0), ('db2', math.inf, 2, 0.5),
                                      ('db3', 2, 1, -0.5), ('sym5', None, 2, 1.0))
                 if ref.max_level(n, wt) >= 2]
        grid += [dict(n=800, wt='db3', p=math.inf), dict(n=801, wt='db4', nrep=2),
                 dict(n=640, wt='db10'), dict(n=1030, wt='db2')]
    for k in grid:
        out.append(case(' '.join(f'{a}={b}' for a, b in k.items()), **k))
    return out
