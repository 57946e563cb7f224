import math
from symnp.harness import Case
from . import ref

ASSUME = ['the noise handed out by numpy.random is independent standard normal; the covariance of the output is computed from its '
          'exact linear dependence on the noise',
          'symbolic covariances: the circulant embedding has positive eigenvalues (cme), the matrix is positive definite (chol)']


def gram(E, cols, base, want, N, R, msg, atol=1e-8):
    """Covariance of y = sum_k cols[k] w_k is `want(lag)` within a realisation, 0 across."""
    for c in range(R):
        for i in range(N):
            E.eq(base[i, c], 0.0, f'{msg}: mean', atol=atol)
    for c in range(R):
        for d in range(c, R):
            for i in range(N):
                for j in range(N if c != d else i + 1):
                    s = 0.0
                    for k in cols:
                        if not (type(k[i, c]) is float and k[i, c] == 0.0) and not (type(k[j, d]) is float and k[j, d] == 0.0):
                            s = s + k[i, c] * k[j, d]
                    if c != d:
                        E.eq(s, 0.0, f'{msg}: realisations {c} and {d} are correlated', atol=atol)
                    else:
                        E.eq(s, want(i, j), f'{msg}: covariance of samples {j} and {i}', tol=1e-6, atol=atol)


def eigen(E, cov):
    """Eigenvalues of the circulant embedding."""
    n = len(cov)
    full = list(cov) + list(cov[1:-1])[::-1]
    m = len(full)
    out = []
    for k in range(m // 2 + 1):
        s = 0.0
        for i, v in enumerate(full):
            s = s + math.cos(2 * math.pi * i * k / m) * v
        out.append(s)
    return out


def minors(E, cov):
    """Leading principal minors of the Toeplitz matrix (by elimination), N <= 4."""
    def det(m):
        if len(m) == 1:
            return m[0][0]
        s = 0.0
        for j in range(len(m)):
            t = m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
            s = s + t if j % 2 == 0 else s - t
        return s
    return [det([[cov[abs(i - j)] for j in range(n)] for i in range(n)]) for n in range(1, len(cov) + 1)]


def general(E, N, R, method):
    """gaussian_cme / gaussian_chol on an arbitrary valid covariance sequence."""
    P = E.mod('simul.pzutils')
    cov = [E.real('v0', 'pos', 2.0, 4.0)]
    for i in range(1, N):
        cov.append(E.real(f'v{i}', 'real', -1.5 / N, 1.5 / N))
    for v in eigen(E, cov) if method == 'gaussian_cme' else minors(E, cov):
        E.assume(v > 1e-6)
    c = E.arr(cov)
    snap = E.snapshot(c)
    cols, base = E.linear_map(lambda: getattr(P, method)(c, N, R))
    E.unchanged(c, snap, 'covariance')
    gram(E, cols, base, lambda i, j: cov[abs(i - j)], N, R, method)


def given(E, N, R, method, cov):
    P = E.mod('simul.pzutils')
    cols, base = E.linear_map(lambda: getattr(P, method)(E.arr(list(cov)), N, R))
    gram(E, cols, base, lambda i, j: cov[abs(i - j)], N, R, method)


def acf(E, k, H, sigma, dt):
    def p(v):
        return 0.0 if v == 0 and not (E.sym is False and H == 0) and H != 0 else E.pw(float(v), 2 * H)
    k = abs(k)
    return sigma * sigma * E.pw(dt, 2 * H) / 2 * (p(k + 1) - 2 * p(k) + p(abs(k - 1)))


def fgn(E, N, R=None, H=None, sigma=None, dt=None, method='cme', cum=False, omit=False):
    F = E.mod('simul.fbm')
    if H is None:
        H = E.real('H', 'real', 0.05, 0.95)
    s = E.real('sigma', 'pos', 0.1, 5) if sigma is None else sigma
    d = E.real('dt', 'pos', 0.01, 5) if dt is None else dt
    kw = dict(H=H, method=method)
    if omit:
        s, d = 1.0, 1.0 / N
    else:
        kw.update(sigma=s, dt=d)
    if E.sym and not isinstance(H, float):
        cov = [acf(E, k, H, s, d) for k in range(N)]
        for v in eigen(E, cov) if method == 'cme' else minors(E, cov):
            E.assume(v > 0)
    f = F.fbm if cum else F.fgn
    shape = N if R is None else (N, R)

    def run():
        x = f(shape, **kw)
        return x[:, None] if R is None else x
    cols, base = E.linear_map(run)
    want = lambda i, j: acf(E, i - j, H, s, d)
    if cum:
        def want(i, j):
            u, v, w = float(i + 1), float(j + 1), float(abs(i - j))
            z = 0.0 if w == 0 else E.pw(w, 2 * H)
            return s * s * E.pw(d, 2 * H) / 2 * (E.pw(u, 2 * H) + E.pw(v, 2 * H) - z)
    gram(E, cols, base, want, N, R or 1, ('fbm ' if cum else 'fgn ') + method)


def integral(E, N, R, H, method):
    """fbm is the cumulative sum of fgn on the same noise."""
    F = E.mod('simul.fbm')
    shape = (N, R) if R else N
    x, draws = E.new_noise(lambda: F.fgn(shape, H, method=method))
    y = E.replay_noise(draws, lambda: F.fbm(shape, H, method=method))
    s = 0.0
    for i in range(N):
        s = x[i] if i == 0 else s + x[i]
        E.eq(y[i], s, f'sample {i}', atol=1e-9)


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    add(general, N=3, R=1, method='gaussian_cme')
    add(general, N=4, R=2, method='gaussian_cme')
    add(general, N=5, R=1, method='gaussian_cme')
    add(general, N=2, R=1, method='gaussian_chol')
    add(general, N=3, R=2, method='gaussian_chol')
    add(given, N=6, R=2, method='gaussian_cme', cov=(2.0, 0.9, 0.3, 0.1, 0.0, -0.05))
    add(given, N=6, R=2, method='gaussian_chol', cov=(2.0, 0.9, 0.3, 0.1, 0.0, -0.05))
    add(given, N=9, R=1, method='gaussian_cme', cov=(1.0, 0.5, 0.25, 0.125, 0.0625, 0.0, 0.0, 0.0, 0.0))
    for m in ('cme', 'chol'):
        add(fgn, N=3, H=None, method=m)
        add(fgn, N=4, R=2, H=0.7, method=m)
        add(fgn, N=5, H=0.3, method=m, sigma=2.0, dt=0.5)
        add(fgn, N=6, R=1, H=0.5, method=m)
        add(fgn, N=6, H=0.9, method=m, omit=True)
        add(fgn, N=8, H=0.6, method=m, cum=True, dt=1.0)
        add(fgn, N=4, R=3, H=0.2, method=m, cum=True, omit=True)
        add(fgn, N=3, H=None, method=m, cum=True, sigma=1.0)
        add(integral, N=6, R=2, H=0.8, method=m)
        add(integral, N=5, R=None, H=0.25, method=m)
    add(fgn, N=5, H=1.0, sigma=1.5, dt=2.0)
    add(fgn, N=5, H=0.0, sigma=1.5, dt=2.0)
    if tier == 'thorough':
        add(general, N=6, R=1, method='gaussian_cme')
        add(general, N=8, R=1, method='gaussian_cme')
        for m in ('cme', 'chol'):
            add(fgn, N=16, H=0.75, method=m)
            add(fgn, N=12, R=2, H=0.35, method=m, cum=True)
        add(fgn, N=4, H=None)
    return out
