from symnp.harness import Case
from . import ref


def line(E, counts, nrep=1, nan=None, weighted=True, j1=1, j2=None, leaders=False):
    """The regression line."""
    top = j2 or len(counts)
    m, rows = ref.random_mrq(E, 'c', counts, nrep, nan, 'pos' if leaders else 'nz',
                             'wavelet leader' if leaders else 'wavelet coef')
    f = E.mod('estimation').estimate_hmin
    h, b = f(m, j1, top, weighted, warn=False)
    h2, b2, y = f(m, j1, top, weighted, False, return_y=True)
    E.eq(h2, h, 'hmin with return_y')
    E.eq(b2, b, 'intercept with return_y')
    E.check(tuple(h.shape) == (nrep,) and tuple(b.shape) == (nrep,), 'one hmin per realisation')
    for r in range(nrep):
        sup, nj = {}, {}
        for j in range(j1, top + 1):
            xs = ref.valid(E, rows[j], r)
            sup[j], nj[j] = E.log2(E.max([E.abs(v) for v in xs])), len(xs)
        s, i = ref.fit(E, sup, nj, j1, top, weighted)
        E.eq(h[r], s, 'hmin', atol=1e-9)
        E.eq(b[r], i, 'intercept', atol=1e-9)
        E.eq(y[:, r], [sup[j] for j in range(j1, top + 1)], 'log2 of the largest coefficient')


def warns(E, counts, want, nrep=1, weighted=True, other=None, warn=True, j1=1):
    """want: 'positive', 'negative' or 'zero': the sign of the first hmin."""
    m, rows = ref.random_mrq(E, 'c', counts, nrep)
    if want == 'zero':
        # the largest coefficient of the first realisation is 1 at every scale
        for j, v in m.values.items():
            for k in range(v.shape[0]):
                if k == (j % v.shape[0]):
                    v[k, 0] = 1.0 if j % 2 else -1.0
                else:
                    E.assume(v[k, 0] <= 1)
                    E.assume(v[k, 0] >= -1)
    f = E.mod('estimation').estimate_hmin
    h, _ = f(m, j1, len(counts), weighted, warn=False)
    if want == 'positive':
        E.assume(h[0] > 0.001)
    elif want == 'negative':
        E.assume(h[0] < -0.001)
    for r in range(1, nrep):
        E.assume(h[r] > 0.001)
    (h2, _), said = E.warned(lambda: f(m, j1, len(counts), weighted, warn=warn) if not warn
                             else f(m, j1, len(counts), weighted))
    E.eq(h2, h, 'hmin with warnings')
    said = any('h_min' in s or 'hmin' in s for s in said)
    if want == 'positive' or not warn:
        E.check(not said, 'a warning although every hmin is positive' if warn else 'a warning with warnings disabled')
    else:
        E.check(said, f'no warning about a {want} hmin')


def cases(tier):
    out = []

    def add(f, zero='assume', **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k),
                        bound=str(k), zero=zero, wide=True))
    add(line, counts=(4, 3))
    add(line, counts=(5, 4, 3), nrep=2, weighted=False)
    add(line, counts=(5, 4, 3, 3), j1=2)
    add(line, counts=(7, 5, 4, 3, 3), nrep=2, j1=2, j2=4)
    add(line, counts=(6, 5, 4), nan={1: [(0, 0), (5, 0)], 2: [(2, 0)]})
    add(line, counts=(6, 5, 4), nrep=3, nan={1: [(0, 0), (5, 1)], 3: [(2, 2)]}, leaders=True)
    add(line, counts=(6, 5, 4, 4), nrep=2, nan={2: [(0, 0), (4, 1)], 3: [(2, 1)]}, weighted=False, j1=2)
    add(line, counts=(12, 8, 6, 5), leaders=True, j2=3)
    add(warns, counts=(3, 3), want='positive')
    add(warns, counts=(3, 2), want='positive', nrep=2, weighted=False)
    add(warns, counts=(3, 2, 2), want='positive', j1=2)
    add(warns, counts=(3, 3), want='negative', warn=False)
    add(warns, counts=(3, 2), want='zero')
    add(warns, counts=(3, 2, 2), want='zero', weighted=False)
    add(warns, counts=(3, 2), want='zero', nrep=2)
    add(warns, counts=(3, 2), want='zero', warn=False)
    add(warns, counts=(3, 3), want='negative')
    add(warns, counts=(3, 2), want='negative', nrep=2, weighted=False)
    add(line, counts=(9, 8, 7, 6, 5, 4, 3, 3, 2, 2), j1=4, j2=9, nrep=2)
    add(line, counts=(6, 5, 5, 4, 4, 3, 3), weighted=False)
    add(line, counts=(4, 3, 3), nrep=6)
    add(line, counts=(40, 20, 10), nrep=2)
    add(line, counts=(6, 5, 4), weighted=1)
    if tier == 'thorough':
        for w in (True, False):
            add(line, counts=(20, 15, 10, 8, 6), nrep=2, j1=2, weighted=w, nan={3: [(1, 0), (9, 1)]})
            add(line, counts=(30, 20, 12, 8, 6, 4), j1=3, j2=5, weighted=w)
            add(warns, counts=(5, 4), want='positive', nrep=2, weighted=w)
    return out
