import math
from symnp.harness import Case
from . import ref


def size(E, rows, m):
    """Rounding of an order-m cumulant in binary64 (concrete runs)."""
    if E.sym:
        return 0.0
    big = max(abs(math.log(abs(v))) for rs in rows.values() for row in rs for v in row if not E.isnan(v))
    return 1e-10 * max(big, 1.0) ** m


def slope_variance(nj, j1, j2, weighted):
    """Variance of the regression slope for ordinates of variance 1/n_j."""
    js = range(j1, j2 + 1)
    w = [float(nj[j]) if weighted else 1.0 for j in js]
    V0, V1 = sum(w), sum(a * j for a, j in zip(w, js))
    det = V0 * sum(a * j * j for a, j in zip(w, js)) - V1 ** 2
    return sum((a * (V0 * j - V1) / det) ** 2 / a for a, j in zip(w, js))


def run(E, counts, n_cumul, nrep=1, nan=None, weighted=True, j1=1, j2=None, leaders=False, entry='class'):
    top = j2 or len(counts)
    m, rows = ref.random_mrq(E, 'c', counts, nrep, nan, 'pos' if leaders else 'nz',
                             'wavelet leader' if leaders else 'wavelet coef')
    C = E.mod('cumulants').Cumulants
    if entry == 'class':
        s = C(m, n_cumul, j1, top, weighted)
    else:
        s = C.from_dict(dict(mrq=m, n_cumul=n_cumul, j1=j1, j2=top, weighted=weighted, q=None))
    E.check([int(j) for j in s.j] == list(rows), 'scales')
    E.check([int(v) for v in s.m] == list(range(1, n_cumul + 1)), 'orders')
    E.check(s.values.shape == (n_cumul, len(counts), nrep), 'one value per order, scale and realisation')
    E.check(s.log_cumulants.shape == (n_cumul, nrep), 'one log-cumulant per order and realisation')
    log2e = 1 / math.log(2)
    for r in range(nrep):
        xs = {j: ref.valid(E, rows[j], r) for j in rows}
        nj = {j: len(xs[j]) for j in rows}
        cs = {j: ref.cumulants(E, [E.log(E.abs(v)) for v in xs[j]], n_cumul) for j in rows}
        for i in range(n_cumul):
            E.eq(s.values[i, :, r], [cs[j][i] for j in rows], f'C{i + 1}(j)',
                 atol=size(E, rows, i + 1))
            a, b = ref.fit(E, {j: cs[j][i] for j in rows}, nj, j1, top, weighted)
            E.eq(s.log_cumulants[i, r], log2e * a, f'c{i + 1}', atol=10 * size(E, rows, i + 1))
            E.eq(s.intercept[i, r], b, f'intercept of C{i + 1}', atol=10 * size(E, rows, i + 1))
            E.eq(s.slope[i, r], a, f'slope of C{i + 1}', atol=10 * size(E, rows, i + 1))
            E.eq(s.var_log_cumulants[i, r], log2e ** 2 * slope_variance(nj, j1, top, weighted),
                 f'variance of c{i + 1}')
    for i in range(min(n_cumul, 9)):
        E.eq(getattr(s, f'c{i + 1}'), s.log_cumulants[[i]], f'attribute c{i + 1}')
        E.eq(getattr(s, f'C{i + 1}'), s.values[[i]], f'attribute C{i + 1}')
    if n_cumul > 1:
        E.eq(s.M, -s.log_cumulants[[1]], 'attribute M')
    for bad in ('c', 'cc', 'foo', 'Cx'):
        E.raises(AttributeError, lambda: getattr(s, bad), f'attribute {bad}')


def two_point(E, counts, n_cumul):
    """Cumulants are shift-covariant: adding a constant to the logs moves the first only."""
    a = E.real('a', 'pos')
    m, rows = ref.random_mrq(E, 'c', counts, 1)
    m2 = ref.make_mrq(E, {j: a * v for j, v in m.values.items()})
    C = E.mod('cumulants').Cumulants
    s, t = C(m, n_cumul, 1, len(counts), True), C(m2, n_cumul, 1, len(counts), True)
    for i in range(n_cumul):
        d = E.log(a) if i == 0 else 0.0
        E.eq(t.values[i, :, 0], [v + d for v in s.values[i, :, 0]], f'C{i + 1} of scaled data',
             atol=size(E, rows, i + 1) + size(E, {0: [[a]]}, i + 1))


def cases(tier):
    out = []

    def add(f=run, **k):
        out.append(Case((f.__name__ + ' ' if f is not run else '') + ' '.join(f'{a}={b}' for a, b in k.items()),
                        lambda E: f(E, **k), bound=str(k), wide=True))
    add(counts=(4, 3, 3), n_cumul=3)
    add(counts=(4, 3), n_cumul=4, weighted=False)
    add(counts=(3, 3), n_cumul=5)
    add(counts=(3, 2), n_cumul=6, weighted=False)
    add(counts=(6, 5, 4), n_cumul=2, nrep=3)
    add(counts=(5, 4, 3, 3), n_cumul=3, j1=2, j2=3, nrep=2)
    add(counts=(5, 4, 3, 3, 2), n_cumul=2, j1=3, leaders=True, entry='dict')
    add(counts=(6, 5, 4), n_cumul=3, nan={1: [(0, 0), (3, 0)], 2: [(4, 0)]}, entry='dict')
    add(counts=(6, 5, 4), n_cumul=2, nrep=2, nan={1: [(0, 0), (3, 1)], 3: [(0, 1)]}, leaders=True)
    add(counts=(6, 5, 4, 4), n_cumul=4, nrep=2, nan={2: [(0, 0), (3, 1), (1, 1)]}, weighted=False, j2=3)
    add(counts=(5, 4, 3), n_cumul=1, nrep=2)
    add(two_point, counts=(3, 3), n_cumul=4)
    add(counts=(2, 2), n_cumul=8, weighted=False)
    add(counts=(2, 2), n_cumul=9)
    add(counts=(9, 8, 7, 6, 5, 4, 3, 3, 2, 2), n_cumul=2, j1=4, j2=9, nrep=2)
    add(counts=(12, 10, 8, 7, 6, 5, 4, 3, 3), n_cumul=3, weighted=False)
    add(counts=(4, 3, 3), n_cumul=3, nrep=6)
    add(counts=(40, 20, 10), n_cumul=2, leaders=True)
    add(counts=(6, 5, 4), n_cumul=3, weighted=1, nrep=2)
    if tier == 'thorough':
        add(counts=(4, 3, 3), n_cumul=6)
        add(counts=(3, 2, 2), n_cumul=7)
        add(counts=(2, 2), n_cumul=9, weighted=False)
        for w in (True, False):
            add(counts=(14, 10, 8, 6, 5), n_cumul=3, nrep=2, j1=2, j2=4, weighted=w)
            add(counts=(10, 8, 6, 5), n_cumul=4, nan={1: [(0, 0)], 4: [(4, 0)]}, weighted=w, leaders=True)
        add(two_point, counts=(4, 3, 2), n_cumul=5)
    return out
