from symnp.harness import Case
from . import ref


def general(E, n, cols, distinct=True):
    """Normal equations for arbitrary abscissae, ordinates and weights."""
    U = E.mod('utils')
    x = E.array('x', (n, cols))
    y = E.array('y', (n, cols))
    w = E.array('w', (n, cols), 'pos')
    a, b = U.linear_regression(x, y, w)
    E.eq(E.np.shape(a), (cols,), 'shape of the slopes')
    for c in range(cols):
        V0 = sum(w[i, c] for i in range(n))
        V1 = sum(w[i, c] * x[i, c] for i in range(n))
        V2 = sum(w[i, c] * x[i, c] * x[i, c] for i in range(n))
        T0 = sum(w[i, c] * y[i, c] for i in range(n))
        T1 = sum(w[i, c] * x[i, c] * y[i, c] for i in range(n))
        det = V0 * V2 - V1 * V1
        E.assume(abs(det) >= 1e-3)
        E.eq(a[c], (V0 * T1 - V1 * T0) / det, 'slope')
        E.eq(b[c], (V2 * T0 - V1 * T1) / det, 'intercept')


def scales(E, j1, j2, cols, ints, oned=False, var=False):
    """Abscissae are scales (as the estimators call it), weights symbolic or counts."""
    U = E.mod('utils')
    js = list(range(j1, j2 + 1))
    n = len(js)
    sh = (n,) if oned else (n, cols)
    y = E.array('y', sh)
    if ints:
        import numpy as np
        nj = np.array([[2 ** (9 - j) + (j * (c + 3)) % 5 for c in range(cols)] for j in js])
        if oned:
            nj = nj[:, 0]
        w = nj
    else:
        w = E.array('n', sh, 'pos')
    x = E.np.arange(j1, j2 + 1)
    if not oned:
        x = E.np.tile(x[:, None], (1, cols))
    r = U.linear_regression(x, y, w, return_variance=True) if var else U.linear_regression(x, y, w)
    at = (lambda v, i, c: v[i]) if oned else (lambda v, i, c: v[i, c])
    res = []
    for c in range(1 if oned else cols):
        ws = [at(w, i, c) for i in range(n)]
        if ints:
            ws = [float(v) for v in ws]
        V0 = sum(ws)
        V1 = sum(v * j for v, j in zip(ws, js))
        V2 = sum(v * j * j for v, j in zip(ws, js))
        T0 = sum(v * at(y, i, c) for i, v in enumerate(ws))
        T1 = sum(v * at(y, i, c) * js[i] for i, v in enumerate(ws))
        det = V0 * V2 - V1 * V1
        slope = (V0 * T1 - V1 * T0) / det
        inter = (V2 * T0 - V1 * T1) / det
        vs = 0.0
        for i, v in enumerate(ws):
            sw = v * (V0 * js[i] - V1) / det
            vs = vs + sw * sw / v
        res.append((slope, inter, vs))
    pick = (lambda k: res[0][k]) if oned else (lambda k: [t[k] for t in res])
    E.eq(r[0], pick(0), 'slope')
    E.eq(r[1], pick(1), 'intercept')
    if var:
        E.eq(r[2], pick(2), 'slope variance')
    E.check(len(r) == (3 if var else 2), 'number of results')


def exact(E, n, cols):
    """Points on a line return the line, whatever the weights."""
    U = E.mod('utils')
    import numpy as np
    js = list(range(1, n + 1))
    s = [E.real(f's{c}') for c in range(cols)]
    t = [E.real(f't{c}') for c in range(cols)]
    w = E.array('w', (n, cols), 'pos')
    y = E.arr([[s[c] * j + t[c] for c in range(cols)] for j in js])
    a, b = U.linear_regression(np.tile(np.array(js)[:, None], (1, cols)), y, w)
    E.eq(a, s, 'slope of an exact line')
    E.eq(b, t, 'intercept of an exact line')


def cases(tier):
    out = []
    ns = [2, 3, 4] if tier == 'quick' else [2, 3, 4, 5]
    for n in ns:
        for cols in (1, 2):
            out.append(Case(f'general n={n} cols={cols}', lambda E, n=n, cols=cols: general(E, n, cols),
                            bound=f'{n} points, {cols} columns, all real x, y, all positive weights'))
    for j1, j2 in [(1, 2), (1, 3), (2, 5), (3, 8), (1, 10)] + ([(2, 13), (5, 16)] if tier == 'thorough' else []):
        for ints in (True, False):
            for oned in (False, True):
                out.append(Case(f'scales {j1}..{j2} {"counts" if ints else "weights"}{" 1d" if oned else ""}',
                                lambda E, a=(j1, j2, 1 if oned else 2, ints, oned, not oned): scales(E, *a),
                                bound=f'scales {j1}..{j2}, all ordinates' + ('' if ints else ', all positive weights')))
    for n in ([2, 3, 5] if tier == 'quick' else [2, 3, 5, 7]):
        out.append(Case(f'exact line n={n}', lambda E, n=n: exact(E, n, 2),
                        bound=f'{n} scales, all slopes, intercepts and positive weights'))
    return out
