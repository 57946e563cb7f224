import math
from symnp.harness import Case
from . import ref

ASSUME = ['the entropy bounds use instances of the two textbook facts log2 t <= (t-1)/ln 2 (t > 0) and '
          't log2 t <= 0 (0 < t <= 1), handed to the solver as lemmas']
LN2 = math.log(2)


def estimators(E, m, top, q, n_cumul, j1, weighted):
    qs = E.arr(q)
    return (E.mod('structurefunction').StructureFunction(m, qs, j1, top, weighted),
            E.mod('cumulants').Cumulants(m, n_cumul, j1, top, weighted),
            E.mod('mfspectrum').MultifractalSpectrum(m, j1, top, weighted, qs))


def identities(E, counts, q, nrep=1, nan=None, weighted=True, j1=1, j2=None, leaders=False, gamint=0.0):
    top = j2 or len(counts)
    qs = [E.real(f'q{i}', 'real', -3, 6, special=(0.0, 1.0, 2.0)) if v is None else v for i, v in enumerate(q)]
    m, _ = ref.random_mrq(E, 'c', counts, nrep, nan, 'pos' if leaders else 'nz',
                          'wavelet leader' if leaders else 'wavelet coef', gamint)
    s, c, d = estimators(E, m, top, qs, 1, j1, weighted)
    for i, v in enumerate(qs):
        for r in range(nrep):
            E.eq(d.Dq[i, r], 1 + v * d.hq[i, r] - s.zeta[i, r], f'D(q{i}) = 1 + q h(q) - zeta(q)', atol=1e-9)
            for k in range(len(counts)):
                # the same relation holds at every scale
                E.eq(d.U[k, i, r], v * d.V[k, i, r] - s.logvalues[i, k, r], f'U = q V - log2 S at scale {k + 1}',
                     atol=1e-9)
        if v == 0:
            E.eq(s.zeta[i], [0.0] * nrep, 'zeta(0)', atol=1e-9)
            E.eq(d.Dq[i], [1.0] * nrep, 'D(0)', atol=1e-9)
            E.eq(d.hq[i], c.log_cumulants[0], 'h(0) = c1', atol=1e-9)
        if v == 2:
            E.eq(s.H, s.zeta[i] / 2 - gamint, 'H = zeta(2)/2 - gamint')


def entropy(E, n, q, nan=()):
    """0 <= U(j, q) <= log2 n_j."""
    if q is None:
        q = E.real('q', 'real', -3, 5)
        E.assume(q != 0)
        E.assume(q != 1)
        E.assume(q != 2)
        E.assume(q != 0.5)
        E.assume(q != -1)
    x = E.array('x', (n, 1), 'pos', nan=[(k, 0) for k in nan])
    y = E.array('y', (2, 1), 'pos')
    m = ref.make_mrq(E, {1: x, 2: y})
    d = E.mod('mfspectrum').MultifractalSpectrum(m, 1, 2, True, E.arr([q]))
    xs = [x[k, 0] for k in range(n) if k not in nan]
    n = len(xs)
    w = [E.pw(v, q) for v in xs]
    tot = w[0]
    for v in w[1:]:
        tot = tot + v
    one = 0.0
    for v in w:
        one = one + v / tot
    E.eq(one, 1.0, 'the weights sum to one')
    for L in (E.log2(tot), 1.0):
        E.assume(L * one - L <= 1e-12)      # consequences of the equality just decided
        E.assume(L * one - L >= -1e-12)
    for v in w:
        E.check(v <= tot, 'a weight exceeds the total')
        R = v / tot
        E.assume(R * E.log2(R) <= 1e-12)
        E.assume(R * E.log2(n * R) >= (R - 1 / n) / LN2 - 1e-12)
    U = d.U[0, 0, 0]
    E.check(U >= -1e-9, 'U is negative')
    E.check(U <= math.log2(n) + 1e-9, 'U exceeds log2 of the count')


def constant(E, counts, n_cumul, weighted=True, nrep=1, nan=None):
    """Coefficients of constant magnitude at each scale."""
    vals = {}
    for i, n in enumerate(counts):
        a = [E.real(f'a{i}_{r}', 'pos') for r in range(nrep)]
        vals[i + 1] = E.arr([[math.nan if (k, r) in (nan or {}).get(i + 1, ()) else (a[r] if (k + r) % 3 else -a[r])
                              for r in range(nrep)] for k in range(n)])
    m = ref.make_mrq(E, vals)
    s, c, d = estimators(E, m, len(counts), [2.0, -1.0], n_cumul, 1, weighted)
    for k in range(1, n_cumul):
        E.eq(c.values[k], [[0.0] * nrep] * len(counts), f'C{k + 1}', atol=1e-6)
        E.eq(c.log_cumulants[k], [0.0] * nrep, f'c{k + 1}', atol=1e-6)
    for i in range(2):
        E.eq(d.hq[i], c.log_cumulants[0], 'h(q) of constant magnitudes', atol=1e-9)
        E.eq(d.Dq[i], [1.0] * nrep, 'D(q) of constant magnitudes', atol=1e-9)
        E.eq(s.zeta[i], [[2.0, -1.0][i] * v for v in c.log_cumulants[0]], 'zeta(q) of constant magnitudes', atol=1e-9)


def from_signal(E, n, wt, q, p=None, gamint=0.0, weighted=True, j1=1):
    x = E.array('x', (n, 1))
    d = E.mod('mfa').mf_analysis_full(x, j1=j1, j2=None, wt_name=wt, p_exp=p, gamint=gamint, weighted=weighted,
                                      q=list(q), n_cumul=1)
    for name in ('dwt', 'lwt'):
        v = getattr(d, name)
        if v is None:
            continue
        for i, qq in enumerate(q):
            E.eq(v.spectrum.Dq[i], 1 + qq * v.spectrum.hq[i] - v.structure.zeta[i], f'{name} D({qq})', atol=1e-9)
            if qq == 0:
                E.eq(v.structure.zeta[i], [0.0], f'{name} zeta(0)', atol=1e-9)
                E.eq(v.spectrum.Dq[i], [1.0], f'{name} D(0)', atol=1e-9)
                E.eq(v.spectrum.hq[i], v.cumulants.log_cumulants[0], f'{name} h(0)', atol=1e-9)
            if qq == 2:
                E.eq(v.structure.H, v.structure.zeta[i] / 2 - gamint, f'{name} H')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    add(identities, counts=(4, 3), q=(None,))
    add(identities, counts=(5, 4, 3), q=(0, 2, -1), nrep=2, gamint=0.5)
    add(identities, counts=(5, 4, 3), q=(0, 2, 3), nrep=2, weighted=False, leaders=True)
    add(identities, counts=(6, 5, 4, 3), q=(0.0, 1.5), j1=2, j2=3)
    add(identities, counts=(6, 5, 4, 3), q=(0, 2), j1=2, nan={1: [(0, 0)], 2: [(3, 0), (4, 0)], 4: [(0, 0)]})
    add(identities, counts=(6, 5, 4), q=(0, 0.5, -2.5), nrep=2, nan={1: [(0, 0)], 2: [(3, 1)]}, leaders=True)
    add(identities, counts=(5, 4, 3), q=(0, 7), nrep=3, weighted=False, nan={1: [(0, 0)], 2: [(3, 2)]})
    add(entropy, n=2, q=None)
    add(entropy, n=3, q=None)
    add(entropy, n=5, q=2)
    add(entropy, n=6, q=-1, nan=(2,))
    add(entropy, n=4, q=0)
    add(entropy, n=4, q=1, nan=(0,))
    add(entropy, n=5, q=0.5)
    add(constant, counts=(4, 3, 3), n_cumul=4)
    add(constant, counts=(6, 3), n_cumul=3, weighted=False, nrep=2)
    add(constant, counts=(6, 5, 4), n_cumul=3, nan={1: [(0, 0)], 3: [(1, 0), (2, 0)]})
    add(from_signal, n=28, wt='db1', q=(0, 2, 1))
    add(from_signal, n=40, wt='db1', q=(0, 2), p=math.inf, weighted=False)
    add(from_signal, n=60, wt='db2', q=(2, 0, -1), gamint=0.5)
    add(identities, counts=(4, 3, 3), q=tuple(0.5 * k - 3 for k in range(14)))
    add(identities, counts=(7, 6, 5, 4, 3, 3, 2, 2), q=(0, 2, -1), j1=4, j2=8, nrep=2)
    add(identities, counts=(4, 3, 3), q=(0, 2), nrep=6, weighted=False)
    add(identities, counts=(24, 12, 6), q=(2, 0), leaders=True)
    if tier == 'thorough':
        for w in (True, False):
            add(identities, counts=(9, 7, 5, 4), q=(None, 0), weighted=w, j1=2)
            add(identities, counts=(12, 8, 6), q=(0, 2, -4, 5, 0.3, 8), weighted=w, nrep=2, nan={2: [(0, 0), (1, 1)]})
            add(constant, counts=(8, 6, 4), n_cumul=6, weighted=w)
        add(entropy, n=5, q=None)
        add(entropy, n=12, q=3)
        add(entropy, n=9, q=-0.7)
        add(from_signal, n=70, wt='db3', q=(2, 0, 1), p=math.inf)
    return out
