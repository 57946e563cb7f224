import math
from symnp.harness import Case
from . import ref
from .c17 import same_cumul, same_spec, same_struct

ASSUME = ['entries are missing at the same positions in every realisation (removing entries must leave a rectangular array)']


def both(E, name, counts, drop, nrep, dom, formalism='wavelet coef', gamint=0.0):
    """A quantity with missing entries, and the same with these entries removed."""
    miss = {j: [(k, r) for k in ks for r in range(nrep)] for j, ks in drop.items()}
    vals = {i + 1: E.array(f'{name}{i + 1}', (n, nrep), dom, nan=miss.get(i + 1, ())) for i, n in enumerate(counts)}
    kept = {j: E.arr([[v[k, r] for r in range(nrep)] for k in range(v.shape[0]) if k not in drop.get(j, ())])
            for j, v in vals.items()}
    return ref.make_mrq(E, vals, formalism, gamint), ref.make_mrq(E, kept, formalism, gamint)


def estimators(E, counts, drop, q=(2,), n_cumul=2, nrep=1, weighted=True, j1=1, j2=None, leaders=False, gamint=0.0):
    f, d = ('wavelet p-leader', 'pos') if leaders else ('wavelet coef', 'nz')
    m, k = both(E, 'c', counts, drop, nrep, d, f, gamint)
    qs = [E.real(f'q{i}', 'real', -3, 6, special=(0.0, 1.0, 2.0)) if v is None else v for i, v in enumerate(q)]
    top = j2 or len(counts)
    for j in m.values:
        E.eq(m.nj[j], k.nj[j], f'count at scale {j}')
    qa = E.arr(qs)
    S, C, M = (E.mod('structurefunction').StructureFunction, E.mod('cumulants').Cumulants,
               E.mod('mfspectrum').MultifractalSpectrum)
    same_struct(E, S(m, qa, j1, top, weighted), S(k, qa, j1, top, weighted), '')
    same_cumul(E, C(m, n_cumul, j1, top, weighted), C(k, n_cumul, j1, top, weighted), '')
    same_spec(E, M(m, j1, top, weighted, qa), M(k, j1, top, weighted, qa), '')
    H = E.mod('estimation').estimate_hmin
    a, b = H(m, j1, top, weighted, warn=False), H(k, j1, top, weighted, warn=False)
    E.eq(a[0], b[0], 'hmin')
    E.eq(a[1], b[1], 'intercept of hmin')
    for x, y, n in zip(E.mod('estimation').compute_hurst(m, j1, top, weighted),
                       E.mod('estimation').compute_hurst(k, j1, top, weighted), ('hurst', None, 'hurst log S')):
        if n:
            E.eq(x, y, n)


def bivariate(E, counts, drop, q1=(0, 1, 2), q2=(0, 1, 2), n_cumul=2, weighted=True, j1=1, leaders=False):
    f, d = ('wavelet leader', 'pos') if leaders else ('wavelet coef', 'nz')
    m1, k1 = both(E, 'a', counts, drop, 1, d, f)
    m2, k2 = both(E, 'b', counts, drop, 1, d, f)
    top = len(counts)
    C = E.mod('bivariate.bivariate_cumulants').BiCumulants
    S = E.mod('bivariate.bivariate_structurefunction').BiStructureFunction
    a, b = C(m1, m2, n_cumul, j1, top, weighted), C(k1, k2, n_cumul, j1, top, weighted)
    E.eq(a.values, b.values, 'bivariate cumulants')
    E.eq(a.log_cumulants, b.log_cumulants, 'bivariate log-cumulants')
    E.eq(a.intercept, b.intercept, 'bivariate intercepts')
    if leaders:
        E.eq(a.RHO_MF, b.RHO_MF, 'RHO_MF')
        E.eq(a.rho_mf, b.rho_mf, 'rho_mf')
    qa, qb = E.arr(list(q1)), E.arr(list(q2))
    a, b = S(m1, m2, j1, top, qa, qb, weighted), S(k1, k2, j1, top, qa, qb, weighted)
    E.eq(a.logvalues, b.logvalues, 'bivariate log structure functions')
    E.eq(a.zeta, b.zeta, 'bivariate zeta')
    E.eq(a.intercept, b.intercept, 'bivariate structure intercepts')
    if b.coherence is None:
        E.check(a.coherence is None, 'coherence')
    else:
        E.eq(a.coherence, b.coherence, 'coherence')


def psd(E, n, n_moments, miss, nrep=1, flat=False):
    """Wavelet PSD of a signal with missing samples: the mean over the valid coefficients."""
    x = E.array('x', n if flat else (n, nrep), nan=miss if flat else [(k, r) for k in miss for r in range(nrep)])
    r = E.mod('psd').wavelet_estimation(x, 2.0, n_moments)
    w = ref.analysis(E, x, None, f'db{n_moments}', 1, None, 0.5, 1, False)
    E.check(len(r.psd) == len(w.coefs), 'one value per scale')
    for i, j in enumerate(w.coefs):
        for c in range(len(w.coefs[j][0])):
            v = ref.valid(E, w.coefs[j], c)
            E.check(len(v) > 0, 'valid entries')
            E.eq(r.psd[i, c], ref.mean(E, [t * t for t in v]), f'PSD at scale {j}')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k), wide=True))
    add(estimators, counts=(5, 4), drop={1: (0, 3)}, q=(2, 0, -1), n_cumul=3)
    add(estimators, counts=(5, 4, 4), drop={1: (2,), 2: (0,), 3: (3,)}, q=(None,), weighted=True)
    add(estimators, counts=(5, 4, 4), drop={1: (2,), 3: (0, 3)}, q=(0, 1, 3), weighted=False, leaders=True)
    add(estimators, counts=(6, 5, 4), drop={1: (0, 5), 2: (4,)}, q=(-2.5, 0.5), nrep=2, gamint=0.5, n_cumul=4)
    add(estimators, counts=(6, 5, 4, 4), drop={1: (1,), 2: (0, 1), 4: (2,)}, q=(2, 11), nrep=2, j1=2, j2=3, n_cumul=1)
    add(estimators, counts=(6, 5, 4, 4), drop={1: (1, 2, 3), 3: (0,), 4: (3,)}, q=(0, 2, -4), j1=2, leaders=True)
    add(estimators, counts=(4, 4), drop={2: (0, 1)}, q=(7, 0.0), weighted=False, n_cumul=5)
    add(estimators, counts=(7, 5, 4), drop={1: (6, 0, 3), 3: (1,)}, q=(-0.5, 1.5, 10), nrep=3, n_cumul=2, leaders=True)
    add(bivariate, counts=(5, 4), drop={1: (0, 3)})
    add(bivariate, counts=(5, 4, 4), drop={1: (2,), 2: (0,), 3: (3,)}, n_cumul=3, weighted=False)
    add(bivariate, counts=(5, 4, 4), drop={1: (4,), 3: (0,)}, leaders=True, n_cumul=3, q1=(0, -1, 0.5), q2=(2, 0))
    add(bivariate, counts=(6, 5, 4), drop={1: (0, 1), 2: (4,)}, j1=2, q1=(2, 0, 3), q2=(0, 1, -2))
    add(psd, n=40, n_moments=1, miss=(0, 17))
    add(psd, n=60, n_moments=2, miss=(30,), flat=True)
    add(psd, n=41, n_moments=1, miss=(8, 9), nrep=2)
    add(estimators, counts=(8, 7, 6, 5, 5, 4, 4), drop={1: (0,), 5: (2,), 6: (3,), 7: (0,)}, q=(2, -1), j1=4, nrep=2)
    add(estimators, counts=(5, 5, 4), drop={1: (0, 4), 2: (1, 2), 3: (3,)}, q=(0, 2), nrep=5, n_cumul=3)
    add(estimators, counts=(20, 10, 6), drop={1: tuple(range(0, 18)), 2: (9,), 3: (0, 5)}, q=(0, 1, -1))
    add(bivariate, counts=(7, 6, 5, 5, 4), drop={1: (0,), 4: (2, 4), 5: (0,)}, j1=3, leaders=True)
    if tier == 'thorough':
        for w in (True, False):
            add(estimators, counts=(10, 8, 6, 5), drop={1: (0, 9, 4), 2: (1,), 4: (3,)}, q=(None, 0, 2), weighted=w)
            add(estimators, counts=(9, 7, 5), drop={1: (0, 5), 2: (4,), 3: (0,)}, q=(0, -3, 6, 0.3), nrep=3, weighted=w,
                n_cumul=5, leaders=True)
            add(bivariate, counts=(8, 7, 5), drop={1: (0, 4), 2: (6,), 3: (0,)}, n_cumul=4, leaders=True, weighted=w)
        add(psd, n=90, n_moments=3, miss=(45, 46))
        add(psd, n=70, n_moments=1, miss=(3, 30, 60), nrep=2)
    return out
