from symnp.harness import Case
from . import ref


def run(E, counts, q, nrep=1, nan=None, weighted=True, j1=1, j2=None, gamint=0.0, leaders=False, entry='class'):
    top = j2 or len(counts)
    qs = [E.real(f'q{i}', 'real', -3, 6, special=(0.0, 1.0, 2.0)) if v is None else v for i, v in enumerate(q)]
    if gamint is None:
        gamint = E.real('gamint', 'nonneg', 0, 2)
    m, rows = ref.random_mrq(E, 'c', counts, nrep, nan, 'pos' if leaders else 'nz',
                             'wavelet p-leader' if leaders else 'wavelet coef', gamint)
    if entry == 'class':
        s = E.mod('structurefunction').StructureFunction(m, E.arr(qs), j1, top, weighted)
    elif entry == 'dict':
        s = E.mod('structurefunction').StructureFunction.from_dict(
            dict(mrq=m, q=E.arr(qs), j1=j1, j2=top, weighted=weighted, n_cumul=3, other=None))
    else:
        h, s, y = E.mod('estimation').compute_hurst(m, j1, top, weighted)
        qs = [2.0]
    E.check([int(j) for j in s.j] == list(rows), 'scales')
    E.check(s.values.shape == (len(qs), len(counts), nrep), 'one value per exponent, scale and realisation')
    for j in rows:
        E.eq(s.nj[j], ref.nvalid(E, rows[j]), f'nj at scale {j}')
    for r in range(nrep):
        xs = {j: ref.valid(E, rows[j], r) for j in rows}
        nj = {j: len(xs[j]) for j in rows}
        for i, v in enumerate(qs):
            S = {j: ref.sfun(E, xs[j], v) for j in rows}
            lg = {j: E.log2(S[j]) for j in rows}
            E.eq(s.values[i, :, r], [S[j] for j in rows], f'S(j, q{i})')
            E.eq(s.logvalues[i, :, r], [lg[j] for j in rows], f'log2 S(j, q{i})')
            a, b = ref.fit(E, lg, nj, j1, top, weighted)
            E.eq(s.zeta[i, r], a, f'zeta(q{i})')
            E.eq(s.intercept[i, r], b, f'intercept(q{i})')
    two = [i for i, v in enumerate(qs) if E.decide(v == 2)]
    if not two:
        E.check(s.H is None, 'H reported without q = 2')
        E.check(s.get_intercept() is None, 'an intercept of H without q = 2')
    else:
        E.eq(s.H, s.zeta[two[0]] / 2 - gamint, 'H')
        E.eq(s.get_intercept(), s.intercept[two[0]], 'intercept at q = 2')
    if entry == 'hurst':
        E.eq(h, s.zeta[0] / 2, 'hurst')
        E.eq(y, s.logvalues[0], 'hurst structure function')


def cases(tier):
    out = []

    def add(**k):
        out.append(Case(' '.join(f'{a}={b}' for a, b in k.items()), lambda E: run(E, **k), bound=str(k), wide=True))
    add(counts=(4, 3, 3), q=(None,))
    add(counts=(4, 3, 3), q=(None, 2), weighted=False, gamint=None)
    add(counts=(3, 3), q=(None, None), weighted=True)
    add(counts=(5, 4, 3), q=(2, 1, 0), nrep=2, gamint=0.5)
    add(counts=(5, 4, 3, 3), q=(-1, 3, 2), j1=2, j2=3, gamint=None)
    add(counts=(6, 5, 4), q=(0.5, -0.5, 1.7), nrep=2, weighted=False)
    add(counts=(6, 5, 4), q=(10, 2, -8), nan={1: [(0, 0), (3, 0)], 2: [(4, 0)]})
    add(counts=(6, 5, 4), q=(4, 0, 2, -2), nrep=2, nan={1: [(0, 0), (3, 1)], 3: [(0, 1)]}, gamint=1)
    add(counts=(7, 5, 4, 3, 2), q=(2, 5), j1=2, j2=5)
    add(counts=(7, 5, 4, 3, 2), q=(2,), j1=1, j2=4, weighted=False, nrep=3)
    add(counts=(5, 4, 3), q=(2, 1.5, 3, -1), leaders=True, nrep=2, entry='dict')
    add(counts=(5, 4, 3, 3), q=(1, 3), leaders=True, j1=2, entry='dict', nan={2: [(0, 0)]})
    add(counts=(5, 4, 3, 3), q=(2,), j1=2, entry='hurst', nan={2: [(0, 0)]})
    add(counts=(5, 4, 3), q=(2,), nrep=2, weighted=False, entry='hurst', gamint=0.5)
    add(counts=(4, 3, 3), q=(11, 12, 2.0, 9), nrep=1)
    add(counts=(5, 4, 3), q=(2, 1), weighted=1, nrep=2)
    add(counts=(6, 5, 4, 4), q=(3, 2, 0), weighted=0, j1=2)
    add(counts=(5, 4, 3), q=tuple(0.5 * k - 3 for k in range(16)), nrep=2)
    add(counts=(4, 3, 3), q=(2,) + tuple(-0.25 * k for k in range(1, 12)), leaders=True, weighted=False)
    add(counts=(9, 8, 7, 6, 5, 4, 3, 3, 2, 2), q=(1, 2, -1), j1=4, j2=9, nrep=2)
    add(counts=(12, 10, 8, 7, 6, 5, 4, 3, 3), q=(2, 4), j1=1, j2=9, weighted=False)
    add(counts=(4, 3, 3), q=(2, 1), nrep=6, gamint=0.25)
    add(counts=(40, 20, 10), q=(2, -1), gamint=1.5)
    if tier == 'thorough':
        for w in (True, False):
            add(counts=(12, 9, 7, 6, 5, 4), q=(None, 2), weighted=w, gamint=None, j1=2, j2=5)
            add(counts=(12, 9, 7, 6), q=tuple(range(-6, 7)), weighted=w, nrep=3)
            add(counts=(10, 8, 6), q=(None, None, 2), weighted=w, nrep=2, nan={1: [(1, 0)], 2: [(7, 1)]})
            add(counts=(20, 10, 6), q=tuple(0.37 * k - 3 for k in range(16)), weighted=w, leaders=True)
    return out
