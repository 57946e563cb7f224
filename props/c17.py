import math
from symnp.harness import Case
from . import ref

ASSUME = ['finite p: the values of the p-leaders are replaced, after the wavelet analysis, by arbitrary '
          'positive numbers (the same ones whenever two wavelet analyses return the same transform)']

INF = math.inf


def same_struct(E, a, b, msg):
    E.check([int(j) for j in a.j] == [int(j) for j in b.j], f'{msg} scales')
    E.eq(a.values, b.values, f'{msg} structure functions')
    E.eq(a.logvalues, b.logvalues, f'{msg} log structure functions')
    E.eq(a.zeta, b.zeta, f'{msg} zeta')
    E.eq(a.intercept, b.intercept, f'{msg} intercept')
    if b.H is None:
        E.check(a.H is None, f'{msg} H')
    else:
        E.eq(a.H, b.H, f'{msg} H')


def same_cumul(E, a, b, msg):
    E.check([int(j) for j in a.j] == [int(j) for j in b.j], f'{msg} scales')
    E.eq(a.values, b.values, f'{msg} cumulants')
    E.eq(a.log_cumulants, b.log_cumulants, f'{msg} log-cumulants')
    E.eq(a.var_log_cumulants, b.var_log_cumulants, f'{msg} variance of the log-cumulants')
    E.check(a.n_cumul == b.n_cumul, f'{msg} n_cumul')


def same_spec(E, a, b, msg):
    E.eq(a.U, b.U, f'{msg} U')
    E.eq(a.V, b.V, f'{msg} V')
    E.eq(a.Dq, b.Dq, f'{msg} D(q)')
    E.eq(a.hq, b.hq, f'{msg} h(q)')
    E.eq(a.q, b.q, f'{msg} q of the spectrum')


def parts(E, m, q, n_cumul, j1, j2, weighted):
    qa = E.arr(q)
    return (E.mod('structurefunction').StructureFunction(m, qa, j1, j2, weighted),
            E.mod('cumulants').Cumulants(m, n_cumul, j1, j2, weighted),
            E.mod('mfspectrum').MultifractalSpectrum(m, j1, j2, weighted, qa),
            E.mod('estimation').estimate_hmin(m, j1, j2, weighted)[0])


def qform(E, form, q):
    if form == 'none':
        return None
    if form == 'list':
        return list(q)
    return E.arr(list(q))


def check(E, d, coefs, leaders, j2, q, n_cumul, j1, weighted, minimal):
    s, c, sp, h = parts(E, coefs, q, n_cumul, j1, j2, weighted)
    same_struct(E, d.dwt.structure, s, 'dwt')
    if minimal:
        E.check(d.dwt.cumulants is None and d.dwt.spectrum is None and d.dwt.hmin is None,
                'the minimal analysis of the coefficients is the structure function only')
    else:
        same_cumul(E, d.dwt.cumulants, c, 'dwt')
        same_spec(E, d.dwt.spectrum, sp, 'dwt')
        E.eq(d.dwt.hmin, h, 'dwt hmin')
    if leaders is None:
        E.check(d.lwt is None, 'a leader part without leaders')
        return
    s, c, sp, h = parts(E, leaders, q, n_cumul, j1, j2, weighted)
    same_cumul(E, d.lwt.cumulants, c, 'lwt')
    if minimal:
        E.check(d.lwt.structure is None and d.lwt.spectrum is None and d.lwt.hmin is None,
                'the minimal analysis of the leaders is the cumulants only')
    else:
        same_struct(E, d.lwt.structure, s, 'lwt')
        same_spec(E, d.lwt.spectrum, sp, 'lwt')
        E.eq(d.lwt.hmin, h, 'lwt hmin')


def full(E, n, nrep=1, flat=False, p=None, q=(2.0,), qf='list', minimal=False, miss=(), default=(), live=None, **kw):
    """mf_analysis_full of a signal."""
    x = E.array('x', n if flat else (n, nrep), nan=miss, live=live)
    wavelet_analysis = E.mod('wavelet').wavelet_analysis
    if p is not None and not math.isinf(p):
        wavelet_analysis = ref.opaque_leaders(E)
    a = dict(j1=1, j2=10, wt_name='db3', gamint=0.0, normalization=1, weighted=True, n_cumul=3)
    a.update(kw)
    call = {k: v for k, v in a.items() if k not in default}
    if p is not None:
        call['p_exp'] = p
    if qf != 'omit':
        call['q'] = qform(E, qf, q)
    if minimal:
        call['minimal'] = True
    d = E.mod('mfa').mf_analysis_full(x, **call)
    w = wavelet_analysis(
        x, p_exp=p, wt_name=a['wt_name'], j1=a['j1'], j2=a['j2'], gamint=a['gamint'],
        normalization=a['normalization'], weighted=a['weighted'])
    check(E, d, w.wt_coefs, w.wt_leaders, w.j2_eff, q, a['n_cumul'], a['j1'], a['weighted'], minimal)


def stage(E, counts, nrep=1, leaders=True, q=(2.0,), qf='list', minimal=False, nan=None, j1=1, j2=None,
          weighted=True, n_cumul=2, gamint=0.0, p=False):
    """mf_analysis and minimal_mf_analysis of given coefficients and leaders."""
    qs = [E.real(f'q{i}', 'real', -3, 6, special=(0.0, 1.0, 2.0)) if v is None else v for i, v in enumerate(q)]
    a, _ = ref.random_mrq(E, 'c', counts, nrep, nan, gamint=gamint)
    b = None
    if leaders:
        b, _ = ref.random_mrq(E, 'l', [k - 1 for k in counts], nrep, nan, dom='pos', gamint=gamint,
                              formalism='wavelet p-leader' if p else 'wavelet leader')
    top = j2 or len(counts)
    f = E.mod('mfa').minimal_mf_analysis if minimal else E.mod('mfa').mf_analysis
    d = f(a, b, top, j1, weighted, n_cumul, qform(E, qf, qs))
    check(E, d, a, b, top, qs, n_cumul, j1, weighted, minimal)


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    add(full, n=48, qf='omit', default=('gamint', 'wt_name', 'normalization', 'weighted', 'n_cumul'), j2=2)
    add(full, n=60, p=INF, qf='none', default=('gamint', 'wt_name', 'normalization', 'weighted', 'n_cumul'))
    add(full, n=40, wt_name='db1', p=2, q=(2.0, -1.0, 0.0), n_cumul=2)
    add(full, n=60, wt_name='db1', p=2, q=(2.0,), n_cumul=1, j1=2)
    add(full, n=64, wt_name='db1', p=1, minimal=True, j1=2, weighted=False)
    add(full, n=40, wt_name='db1', p=1.5, q=(2.0, 1.0), qf='array', weighted=False, gamint=0.5)
    add(full, n=60, wt_name='db2', p=INF, q=(1.0, 3.0), qf='list', weighted=False, j1=2, j2=3, normalization=2)
    add(full, n=44, wt_name='db1', p=INF, q=(2.0, 0.0), qf='array', minimal=True, j1=2)
    add(full, n=41, wt_name='db1', qf='none', minimal=True, n_cumul=4, weighted=False)
    add(full, n=36, wt_name='db1', p=2, qf='omit', minimal=True, j2=2, gamint=1.0, normalization=2)
    add(full, n=36, nrep=2, wt_name='db1', p=INF, q=(2.0,), j2=2, n_cumul=1)
    add(full, n=30, flat=True, wt_name='db1', p=INF, qf='none', n_cumul=2)
    add(full, n=48, wt_name='db1', p=INF, q=(-2.0, 0.5), miss=((7, 0), (20, 0)), n_cumul=2)
    add(full, n=70, wt_name='sym4', p=None, q=(2.0, 4.0), qf='array', gamint=0.3, weighted=False, j1=1, j2=2)
    for mini in (False, True):
        add(stage, counts=(6, 5, 4), q=(None, 2.0), qf='list', minimal=mini)
        add(stage, counts=(7, 5, 4, 3), q=(2.0,), qf='none', j1=2, j2=3, weighted=False, minimal=mini, n_cumul=4)
        add(stage, counts=(6, 5, 4), nrep=2, q=(0.0, -1.0), qf='array', nan={1: [(0, 0)], 2: [(3, 1)]}, minimal=mini)
        add(stage, counts=(6, 5), leaders=False, q=(1.0, 2.0), qf='list', minimal=mini, n_cumul=5, gamint=0.5)
        add(stage, counts=(6, 5, 4), q=(2.0,), qf='none', leaders=False, j1=2, minimal=mini)
        add(stage, counts=(9, 6, 5, 4), nrep=3, p=True, q=(2.0, 3.0), qf='list', minimal=mini, weighted=False, j1=1,
            j2=3, gamint=0.25)
    add(full, n=300, wt_name='db1', p=INF, q=(2.0, -1.0), live=(140, 141), n_cumul=2)
    add(full, n=500, wt_name='db2', q=(2.0, 1.0), live=(200,), n_cumul=2, weighted=False, j1=2)
    add(full, n=300, wt_name='db1', p=1, q=(2.0,), live=(100,), n_cumul=1, minimal=True)
    add(full, n=260, nrep=3, wt_name='db1', p=INF, q=(2.0,), live=(100,), n_cumul=2)
    add(stage, counts=(9, 8, 7, 6, 5, 5, 4, 4, 3), q=(2.0, -1.0), j1=4, j2=8, nrep=2)
    add(stage, counts=(5, 4, 4), nrep=5, q=(2.0, 0.0), n_cumul=3)
    add(stage, counts=(30, 15, 8), q=tuple(0.5 * k - 2 for k in range(12)), n_cumul=2)
    if tier == 'thorough':
        add(full, n=90, p=INF, q=(2.0, -1.5, 0.0, 5.0), n_cumul=4, j1=2)
        add(full, n=80, wt_name='db2', p=2, q=(2.0, 1.0), n_cumul=3, weighted=False)
        add(full, n=80, wt_name='db2', p=0.5, nrep=2, q=(2.0,), n_cumul=2, minimal=True)
        add(full, n=100, wt_name='coif1', p=INF, qf='omit', default=('weighted', 'n_cumul'), gamint=0.5)
        add(full, n=64, wt_name='db1', p=4, q=(2.0, 0.0), qf='array', miss=((30, 0),), n_cumul=2)
    return out
