import math
from symnp.harness import Case


def run(E, n, M, off, J, wt, p=None, norm=1, gamint=0.0, nrep=1):
    W = E.mod('wavelet')
    x = E.array('x', (M, nrep))
    kw = dict(p_exp=p, wt_name=wt, j1=1, j2=None, gamint=gamint, normalization=norm, weighted=False)
    cut = W.wavelet_analysis(x[off:off + n], **kw).wt_coefs.values
    full = W.wavelet_analysis(x, **kw).wt_coefs.values
    seen = 0
    for j in cut:
        if j > J or j not in full:
            continue
        o = off // 2 ** j
        idx = [k for k in range(cut[j].shape[0]) for r in range(1) if not E.isnan(cut[j][k, 0])]
        seen += len(idx)
        a, b = [], []
        for k in range(cut[j].shape[0]):
            for r in range(nrep):
                if not E.isnan(cut[j][k, r]):
                    E.check(k + o < full[j].shape[0], f'position {k} of scale {j} lies outside the recording')
                    a.append(cut[j][k, r])
                    b.append(full[j][k + o, r])
        E.eq(a, b, f'coefficients of the cut at scale {j}')
    E.check(seen > 0, 'the cut has no coefficient')


def cases(tier):
    g = [dict(n=30, M=52, off=8, J=3, wt='db1'), dict(n=61, M=100, off=16, J=4, wt='db1', nrep=2),
         dict(n=64, M=120, off=8, J=3, wt='db2'), dict(n=83, M=150, off=16, J=4, wt='db2', norm=2),
         dict(n=90, M=170, off=8, J=3, wt='db3', gamint=0.5), dict(n=121, M=160, off=0, J=4, wt='db3'),
         dict(n=118, M=150, off=32, J=5, wt='db3', p=math.inf),
         dict(n=115, M=190, off=40, J=3, wt='db4', norm=2), dict(n=96, M=140, off=4, J=2, wt='sym4'),
         dict(n=100, M=140, off=24, J=3, wt='bior2.2'), dict(n=101, M=150, off=8, J=3, wt='coif1'),
         dict(n=90, M=130, off=8, J=3, wt='rbio1.3', norm=3), dict(n=260, M=400, off=64, J=6, wt='db2'),
         dict(n=210, M=300, off=16, J=4, wt='db5', gamint=-0.5),
         dict(n=130, M=200, off=8, J=3, wt='db2', p=2, gamint=0.3)]
    if tier == 'thorough':
        g += [dict(n=n, M=n + 77, off=o, J=5, wt=wt, p=p, norm=nm)
              for n in (100, 157, 230, 301) for o in (32, 64)
              for wt, p, nm in (('db1', None, 1), ('db2', math.inf, 2), ('db3', None, 2), ('sym3', math.inf, 1))]
        g += [dict(n=640, M=900, off=128, J=7, wt='db2'), dict(n=500, M=700, off=64, J=6, wt='db6')]
    return [Case(' '.join(f'{a}={b}' for a, b in k.items()), lambda E, k=k: run(E, **k), bound=str(k)) for k in g]
