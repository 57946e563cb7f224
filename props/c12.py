from symnp.harness import Case
from . import ref


def run(E, counts, q, nrep=1, nan=None, weighted=True, j1=1, j2=None, leaders=False, entry='class'):
    top = j2 or len(counts)
    qs = [E.real(f'q{i}', 'real', -3, 6, special=(0.0, 1.0, 2.0)) if v is None else v for i, v in enumerate(q)]
    m, rows = ref.random_mrq(E, 'c', counts, nrep, nan, 'pos' if leaders else 'nz',
                             'wavelet leader' if leaders else 'wavelet coef')
    M = E.mod('mfspectrum').MultifractalSpectrum
    if entry == 'class':
        s = M(m, j1, top, weighted, E.arr(qs))
    else:
        s = M.from_dict(dict(mrq=m, q=E.arr(qs), j1=j1, j2=top, weighted=weighted, n_cumul=2))
    E.check([int(j) for j in s.j] == list(rows), 'scales')
    E.check(s.U.shape == (len(counts), len(qs), nrep) and s.V.shape == s.U.shape, 'shape of U and V')
    E.check(s.Dq.shape == (len(qs), nrep) and s.hq.shape == s.Dq.shape, 'shape of D(q) and h(q)')
    for r in range(nrep):
        xs = {j: ref.valid(E, rows[j], r) for j in rows}
        nj = {j: len(xs[j]) for j in rows}
        for i, v in enumerate(qs):
            uv = {j: ref.uv(E, xs[j], v) for j in rows}
            U, V = {j: uv[j][0] for j in rows}, {j: uv[j][1] for j in rows}
            E.eq(s.U[:, i, r], [U[j] for j in rows], f'U(j, q{i})')
            E.eq(s.V[:, i, r], [V[j] for j in rows], f'V(j, q{i})')
            E.eq(s.Dq[i, r], 1 + ref.fit(E, U, nj, j1, top, weighted)[0], f'D(q{i})')
            E.eq(s.hq[i, r], ref.fit(E, V, nj, j1, top, weighted)[0], f'h(q{i})')


def cases(tier):
    out = []

    def add(**k):
        out.append(Case(' '.join(f'{a}={b}' for a, b in k.items()), lambda E: run(E, **k), bound=str(k), wide=True))
    add(counts=(3, 3), q=(None,))
    add(counts=(3, 2), q=(None, 2), weighted=False)
    add(counts=(4, 3, 3), q=(2, 1, 0), nrep=2)
    add(counts=(5, 4, 3, 3), q=(-1, 3), j1=2, j2=3)
    add(counts=(4, 4, 3), q=(0.5, -0.5, 1.7), weighted=False)
    add(counts=(6, 5, 4), q=(10, -8), nan={1: [(0, 0), (3, 0)], 2: [(4, 0)]})
    add(counts=(6, 5, 4), q=(4, 0, -2), nrep=2, nan={1: [(0, 0), (3, 1)], 3: [(0, 1)]})
    add(counts=(7, 5, 4, 3, 2), q=(2, 5), j1=2, j2=5, entry='dict')
    add(counts=(6, 4, 4, 3), q=(2,), j1=1, j2=4, weighted=False, nrep=3)
    add(counts=(5, 4, 3), q=(2, 1.5, 3, -1), leaders=True, nrep=2, entry='dict')
    add(counts=(5, 4, 3, 3), q=(1, 0), leaders=True, j1=2, nan={2: [(0, 0)]})
    add(counts=(3, 3), q=tuple(0.5 * k - 3 for k in range(16)))
    add(counts=(7, 6, 5, 4, 3, 3, 2, 2, 2), q=(2, -1), j1=4, j2=8, nrep=2)
    add(counts=(6, 5, 4, 3, 3, 2, 2), q=(1, 3), weighted=False)
    add(counts=(4, 3, 3), q=(2, 0.5), nrep=6)
    add(counts=(24, 12, 6), q=(2, -1))
    add(counts=(5, 4, 3), q=(2, 1), weighted=1, nrep=2)
    if tier == 'thorough':
        for w in (True, False):
            add(counts=(6, 5, 4, 3), q=(None,), weighted=w, j1=2, j2=4)
            add(counts=(9, 7, 6), q=tuple(range(-5, 6)), weighted=w, nrep=2)
            add(counts=(7, 5, 4), q=(None, None), weighted=w, nan={1: [(1, 0)], 2: [(3, 0)]})
            add(counts=(8, 6, 4), q=tuple(0.41 * k - 2 for k in range(10)), weighted=w, leaders=True)
    return out
