"""Reference definitions, written as explicit scalar formulas (both modes)."""
import math
from fractions import Fraction as Fr

import numpy as np
import pywt

NAN = math.nan
_FB = {}


def filters(wt):
    """(low-pass, sign-flipped high-pass) decomposition filters."""
    r = _FB.get(wt)
    if r is None:
        w = pywt.Wavelet(wt)
        r = _FB[wt] = ([float(v) for v in w.dec_lo], [-float(v) for v in w.dec_hi])
    return r


def filter_len(wt):
    return len(filters(wt)[0])


def max_level(n, wt):
    """Largest m >= 0 with 2^m (filter length + 1) <= n (m < 0 when even m = 0 fails)."""
    m = 0
    if n < filter_len(wt) + 1:
        return -1
    while 2 ** (m + 1) * (filter_len(wt) + 1) <= n:
        m += 1
    return m


def stage(E, a, h):
    """Same-size convolution, border removal, subsampling of one column."""
    n, f = len(a), len(h)
    out = []
    for k in range(1, n, 2):
        if k < f - 1 or k > n - f:
            out.append(NAN)
            continue
        s = 0.0
        for i in range(f):
            v = a[k + (f - 1) // 2 - i]
            if E.isnan(v):
                s = NAN
                break
            s = s + h[i] * v
        out.append(s)
    return out


def columns(x):
    if len(x.shape) == 1:
        return [[x[k] for k in range(x.shape[0])]]
    return [[x[k, r] for k in range(x.shape[0])] for r in range(x.shape[1])]


def transform(E, cols, wt, levels, norm=1, gamint=0.0):
    """coefs[j] = rows over positions, one entry per realisation."""
    lo, hi = filters(wt)
    out = {}
    approx = [list(c) for c in cols]
    for j in range(1, levels + 1):
        d = [stage(E, a, hi) for a in approx]
        approx = [stage(E, a, lo) for a in approx]
        e = j * (0.5 - 1 / norm)
        g = 2.0 ** e
        if not isinstance(gamint, (int, float)):
            g = g * E.pw(2.0, gamint * j)
        else:
            g = g * 2.0 ** (gamint * j)
        out[j] = [[v if E.isnan(v) else v * g for v in row] for row in zip(*d)]
    return out


def nvalid(E, rows):
    n = len(rows[0]) if rows else 0
    return [sum(0 if E.isnan(row[r]) else 1 for row in rows) for r in range(n)]


def under(j, k, j2):
    """Positions of scale j2 <= j located under position k of scale j."""
    w = 2 ** (j - j2)
    return range(k * w, (k + 1) * w)


def leaders(E, coefs, j, p=None):
    """Wavelet leaders (p None) or uncorrected p-leaders at scale j."""
    rows = coefs[j]
    nr = len(rows[0])
    out = []
    for k in range(len(rows) - 2):
        line = []
        for r in range(nr):
            vals = []
            for i in (k, k + 1, k + 2):
                for jj in range(1, j + 1):
                    for kk in under(j, i, jj):
                        v = coefs[jj][kk][r]
                        if not E.isnan(v):
                            vals.append((jj, E.abs(v)))
            if not vals:
                line.append(NAN)
            elif p is None:
                line.append(E.max([v for _, v in vals]))
            else:
                s = 0.0
                for jj, v in vals:
                    s = s + 2.0 ** jj * E.pw(v, p)
                line.append(E.pw(s * 2.0 ** -j, 1 / p))
        out.append(line)
    return out


def line_fit(E, xs, ys, ws):
    """Weighted least-squares line through (xs, ys): slope, intercept."""
    V0 = sum(ws)
    mx = sum(w * x for w, x in zip(ws, xs)) / V0
    sxx = sum(w * (x - mx) ** 2 for w, x in zip(ws, xs))
    a = 0.0
    my = 0.0
    for x, y, w in zip(xs, ys, ws):
        a = a + float(w * (x - mx) / sxx) * y
        my = my + float(w / V0) * y
    return a, my - float(mx) * a


def fit(E, per_scale, nj, j1, j2, weighted):
    """per_scale: {j: value}, nj: {j: count}; regression over j1..j2."""
    js = list(range(j1, j2 + 1))
    ws = [Fr(nj[j]) if weighted else Fr(1) for j in js]
    return line_fit(E, [Fr(j) for j in js], [per_scale[j] for j in js], ws)


def valid(E, rows, r):
    return [row[r] for row in rows if not E.isnan(row[r])]


def mean(E, xs):
    s = 0.0
    for x in xs:
        s = s + x
    return s / len(xs)


def sfun(E, xs, q):
    """Structure function of one list of valid values."""
    return mean(E, [E.pw(E.abs(x), q) for x in xs])


def cumulants(E, logs, M):
    """First M cumulants of the empirical distribution of `logs`."""
    mom = [1.0]
    for m in range(1, M + 1):
        s = 0.0
        for v in logs:
            t = v
            for _ in range(m - 1):
                t = t * v
            s = s + t
        mom.append(s / len(logs))
    c = [None]
    for m in range(1, M + 1):
        v = mom[m]
        for i in range(1, m):
            v = v - math.comb(m - 1, i - 1) * c[i] * mom[m - i]
        c.append(v)
    return c[1:]


def uv(E, xs, q):
    """(U, V) of the Chhabra-Jensen method for one scale."""
    ws = [E.pw(E.abs(x), q) for x in xs]
    tot = 0.0
    for w in ws:
        tot = tot + w
    U = math.log2(len(xs))
    V = 0.0
    for x, w in zip(xs, ws):
        R = w / tot
        V = V + R * E.log2(E.abs(x))
        U = U + R * E.log2(R)
    return U, V


def eta(E, coefs, p, j1, j2, weighted):
    nr = len(coefs[1][0])
    out = []
    for r in range(nr):
        y = {j: E.log2(sfun(E, valid(E, coefs[j], r), p)) for j in range(j1, j2 + 1)}
        nj = {j: len(valid(E, coefs[j], r)) for j in range(j1, j2 + 1)}
        out.append(fit(E, y, nj, j1, j2, weighted)[0])
    return out


class WT:
    pass


def scales(E, coefs, top, p_exp):
    """(scales of coefficients, last scale kept)."""
    last = 0
    kept = []
    for j in range(1, top + 1):
        if min(nvalid(E, coefs[j])) < 3:
            break
        kept.append(j)
        if p_exp is not None:
            L = leaders(E, coefs, j)
            if min(nvalid(E, L) or [0]) < 3:
                break
        last = j
    return kept, last


def analysis(E, x, p_exp=None, wt='db3', j1=1, j2=10, gamint=0.0, norm=1, weighted=True):
    """Reference wavelet analysis; with p finite the leaders are not corrected, eta is separate."""
    cols = columns(x)
    top = max(0, max_level(len(cols[0]), wt))
    full = transform(E, cols, wt, top, norm, gamint)
    kept, last = scales(E, full, top, p_exp)
    w = WT()
    w.coefs = {j: full[j] for j in kept}
    w.j2_eff = last if j2 is None else min(last, j2)
    w.leaders = None
    w.eta = None
    if p_exp is not None:
        p = None if math.isinf(p_exp) else p_exp
        w.leaders = {j: leaders(E, full, j, p) for j in range(1, last + 1)}
        if p is not None:
            w.eta = eta(E, w.coefs, p, j1, w.j2_eff, weighted)
    w.nj = {j: nvalid(E, w.coefs[j]) for j in w.coefs}
    w.njl = None if w.leaders is None else {j: nvalid(E, w.leaders[j]) for j in w.leaders}
    return w


def check_mrq(E, mrq, ref, msg):
    """A MultiResolutionQuantity equals reference rows {j: rows}."""
    E.check([int(j) for j in mrq.values] == list(ref), f'{msg}: scales {list(mrq.values)}, expected {list(ref)}')
    for j in ref:
        if j in mrq.values:
            E.eq(mrq.values[j], ref[j], f'{msg} at scale {j}')
            E.eq(mrq.nj[j], nvalid(E, ref[j]), f'count of {msg} at scale {j}')


def make_mrq(E, values, formalism='wavelet coef', gamint=0.0):
    """A MultiResolutionQuantity of the package holding {j: array}."""
    m = E.mod('multiresquantity').MultiResolutionQuantity(formalism, gamint)
    for j, v in values.items():
        m.add_values(v, j)
    return m


def random_mrq(E, name, counts, nrep=1, nan=None, dom='nz', formalism='wavelet coef', gamint=0.0,
               first=1):
    """Symbolic multi-resolution quantity with counts[j-1] positions at scale j."""
    vals = {}
    for i, n in enumerate(counts):
        j = first + i
        vals[j] = E.array(f'{name}{j}', (n, nrep), dom, nan=(nan or {}).get(j, ()))
    return make_mrq(E, vals, formalism, gamint), {j: [[v[k, r] for r in range(nrep)]
                                                      for k in range(v.shape[0])]
                                                  for j, v in vals.items()}


def opaque_leaders(E, name='l'):
    """Makes the p-leaders returned by wavelet_analysis arbitrary positive values.

    The values replaced are keyed by everything the call returned, so that two calls returning the
    same transform return the same (arbitrary) leaders and any difference stays a difference.
    """
    W = E.mod('wavelet')
    true = W.wavelet_analysis
    table = {}

    def key(a):
        if isinstance(a, np.ndarray):
            return (a.shape,) + tuple(key(v) for v in a.ravel())
        if isinstance(a, dict):
            return tuple((int(j), key(v)) for j, v in a.items())
        if hasattr(a, 'p'):
            return a.p
        if isinstance(a, (float, int, np.generic)):
            return f'{float(a):.9e}'
        return str(a)

    def wavelet_analysis(*a, **k):
        r = true(*a, **k)
        if r.wt_leaders is None:
            return r
        ld = r.wt_leaders
        kk = (key(r.wt_coefs.values), key(ld.values), key(r.eta_p), int(r.j2_eff), ld.formalism)
        if kk not in table:
            i = len(table)
            table[kk] = {j: E.array(f'{name}{i}_{j}', v.shape, 'pos',
                                    nan=[ix for ix in np.ndindex(*v.shape) if E.isnan(v[ix])])
                         for j, v in ld.values.items()}
        new = type(ld)(ld.formalism, ld.gamint)
        for j, v in table[kk].items():
            new.add_values(v.copy(), j)
        return r._replace(wt_leaders=new)

    for m in ('wavelet', 'mfa', 'signal', 'bivariate.bimfa'):
        if getattr(E.mod(m), 'wavelet_analysis', None) is true:
            E.stub(m, 'wavelet_analysis', wavelet_analysis)
    return wavelet_analysis
