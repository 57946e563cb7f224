import math
from symnp.harness import Case
from . import ref

LENGTHS = {'db1': (3, 6, 7, 13, 16, 17, 18, 23, 24, 25, 33, 34, 36, 47, 48, 66, 95, 96, 97), 'db2': (10, 19, 20, 39, 40, 41, 79, 80, 159, 160),
           'db3': (14, 27, 28, 55, 56, 57, 111, 112, 113, 224), 'sym4': (35, 36, 71, 72, 144),
           'bior2.2': (27, 28, 56, 112), 'coif1': (56, 112, 150), 'db5': (43, 44, 87, 88, 176)}


def level(E, wt, lo, hi):
    """Level query for a symbolic length."""
    W = E.mod('wavelet')
    f = ref.filter_len(wt)
    n = E.real('n', 'int', lo, hi)
    m = W.decomposition_level(n, wt)
    m = int(m)
    E.check(E.pw(2.0, m) * (f + 1) <= n, 'the level exceeds the data')
    E.check(E.pw(2.0, m + 1) * (f + 1) > n, 'the level is not maximal')


def analysis(E, n, wt, j2=None, p=None, nrep=1, miss=(), oned=False):
    W = E.mod('wavelet')
    top = ref.max_level(n, wt)
    x = E.array('x', (n,) if oned else (n, nrep), nan=miss)
    r, msgs = E.warned(lambda: W.wavelet_analysis(x, p_exp=p, wt_name=wt, j1=1, j2=j2, weighted=False))
    w = ref.analysis(E, x, math.inf if p else None, wt, 1, j2)
    got = [int(j) for j in r.wt_coefs.values]
    E.check(got == list(w.coefs), f'scales {got}, expected {list(w.coefs)}')
    E.check(got == list(range(1, len(got) + 1)) and len(got) <= top, f'scales {got} of at most {top}')
    E.check(int(W.decomposition_level(n, wt)) == top, 'level query')
    E.check(r.j2_eff == w.j2_eff, f'j2_eff {r.j2_eff}, expected {w.j2_eff}')
    mrqs = [r.wt_coefs] + ([r.wt_leaders] if p else [])
    if p:
        lead = [int(j) for j in r.wt_leaders.values]
        E.check(lead == list(range(1, len(w.leaders) + 1)), f'leader scales {lead}')
    for q in mrqs:
        E.check(r.j2_eff in q.values or r.j2_eff == 0, 'j2_eff is not a scale of all returned quantities')
        for j, v in q.values.items():
            rows = [[v[k, c] for c in range(nrep)] for k in range(v.shape[0])]
            E.check(min(ref.nvalid(E, rows)) >= 3, f'fewer than three values at scale {j}')
            E.eq(q.nj[j], ref.nvalid(E, rows), f'counts at scale {j}')
    said = any('j2' in m for m in msgs)
    E.check(said == (j2 is not None and j2 > top), f'warning about j2={j2} with {top} levels: {said}')


def cases(tier):
    out = []
    wts = ['db1', 'db2', 'db3', 'db4', 'db7', 'sym4', 'coif1', 'bior2.2', 'rbio3.1', 'haar', 'db10']
    for wt in wts:
        f = ref.filter_len(wt)
        hi = 1 << (20 if tier == 'quick' else 40)
        out.append(Case(f'level query {wt}', lambda E, wt=wt, f=f, hi=hi: level(E, wt, f + 1, hi),
                        log_grid=None, bound=f'every integer length from {f + 1} to {hi}'))
    done = set()

    def add(**k):
        name = 'analysis ' + ' '.join(f'{a}={b}' for a, b in k.items())
        if name not in done:
            done.add(name)
            out.append(Case(name, lambda E, k=k: analysis(E, **k), bound=str(k)))
    for wt, ns in LENGTHS.items():
        for i, n in enumerate(ns):
            top = ref.max_level(n, wt)
            if top < 1:
                continue
            k = dict(n=n, wt=wt, j2=[None, top, top + 1, max(1, top - 1), 10, 1][i % 6])
            if usable(**k):
                add(**k)
            k = dict(n=n, wt=wt, j2=[top + 1, 10, None, top, 2][i % 5], p=math.inf, nrep=1 + i % 2)
            if usable(**k):
                add(**k)
    for n in (16, 17, 18, 24, 32, 33, 34, 35, 36, 64, 66, 68):
        k = dict(n=n, wt='db1', p=math.inf)
        if usable(**k):
            add(**k)
    add(n=120, wt='db1', miss=[(k, 0) for k in range(20, 90)])
    add(n=120, wt='db1', miss=[(k, 0) for k in range(20, 90)], p=math.inf, j2=3)
    add(n=200, wt='db2', miss=[(k, 1) for k in range(60, 140)], nrep=2, j2=4)
    add(n=200, wt='db2', miss=[(k, 1) for k in range(60, 140)], nrep=2, p=math.inf)
    add(n=130, wt='db3', miss=[(40, 0), (90, 0)], p=math.inf, j2=4)
    add(n=300, wt='db1', oned=True, j2=20)
    if tier == 'thorough':
        for wt in ('db1', 'db2', 'db3', 'sym4', 'rbio1.3'):
            f = ref.filter_len(wt)
            for n in range(2 * f + 3, 2 * f + 90, 3):
                for p in (None, math.inf):
                    k = dict(n=n, wt=wt, j2=[3, None, 1, 2][n % 4], p=p)
                    if usable(**k):
                        add(**k)
    return out


class _Plain:
    @staticmethod
    def isnan(v):
        return v != v

    abs = staticmethod(abs)
    max = staticmethod(max)


def usable(n, wt, j2=None, p=None, nrep=1):
    """At least one scale survives (shorter signals have no analysis to speak of)."""
    w = ref.analysis(_Plain, Col([(k * 37 % 11) + 1.0 for k in range(n)]), math.inf if p else None, wt, 1, j2)
    return len(w.coefs) >= 1 and (w.leaders is None or len(w.leaders) >= 1)


class Col:
    def __init__(self, v):
        self.v, self.shape = v, (len(v),)

    def __getitem__(self, k):
        return self.v[k]
