import math
from symnp.harness import Case
from . import ref

ASSUME = ['n log-spaced points: arithmetic progression of log10 between the bounds, both bounds included (n = 1: q_min only)']


def grid(E, n, lo=0.05, hi=20.0, qmin=None, qmax=None, distinct=True):
    U = E.mod('utils')
    a = E.real('a', 'pos', lo, hi) if qmin is None else qmin
    b = E.real('b', 'pos', lo, hi) if qmax is None else qmax
    if distinct:
        E.assume(a < b)
        if not E.sym:
            E.assume(b / a > 1.001)
    r = U.build_q_log(a, b, n)
    r = [r[i] for i in range(len(r))]
    logs = [a * E.pw(b / a, k / (n - 1)) if n > 1 else a for k in range(n)]
    want = []
    for v in logs + [1.0, 2.0]:
        if not any(E.decide(v == w) if E.sym else abs(v - w) < 1e-13 for w in want):
            want.append(v)
    E.check(len(r) in (2 * len(want) + 1, *([] if E.sym else range(2 * len(want) + 2, 2 * len(want) + 6))),
            f'{len(r)} exponents')
    for i in range(len(r) - 1):
        E.check(r[i] < r[i + 1], 'strictly increasing')
    for i in range(len(r)):
        E.eq(r[i], -r[len(r) - 1 - i], 'symmetric about 0')
    E.eq(r[len(r) // 2], 0.0, 'contains 0', atol=1e-15)
    if not E.sym:
        for v in want:
            E.check(any(abs(v - w) <= 1e-9 * v for w in r), f'{v} is missing')
            E.check(any(abs(v + w) <= 1e-9 * v for w in r), f'{-v} is missing')
        for w in r:
            E.check(w == 0 or any(abs(abs(w) - v) <= 1e-9 * v for v in want), f'{w} is not on the grid')
        for k in (-2, -1, 0, 1, 2):
            E.check(k in r, f'{k} is missing')
        return
    # sort the expected values as the path decides
    order = []
    for v in want:
        i = 0
        while i < len(order) and E.decide(order[i] < v):
            i += 1
        order.insert(i, v)
    for i, v in enumerate(order):
        E.eq(r[len(r) // 2 + 1 + i], v, f'positive exponent {i}')


def invalid(E, which):
    U = E.mod('utils')
    a = E.real('a', 'real', -5, 0 if which != 'max' else 5, special=(0.0,))
    b = E.real('b', 'real', -5, 0 if which != 'min' else 5, special=(0.0,))
    if which == 'max':
        E.assume(a > 0)
    if which == 'min':
        E.assume(b > 0)
    E.raises(ValueError, lambda: U.build_q_log(a, b, 3), f'non-positive {which}')


def cases(tier):
    out = []

    def add(f, **k):
        out.append(Case(f.__name__ + ' ' + ' '.join(f'{a}={b}' for a, b in k.items()), lambda E: f(E, **k), bound=str(k)))
    for n in (1, 2, 3):
        add(grid, n=n)
    add(grid, n=3, qmin=0.01, qmax=10.0)
    add(grid, n=5, qmin=0.5, qmax=2.0)
    add(grid, n=4, qmin=1.0, qmax=8.0)
    add(grid, n=3, qmin=1, qmax=5)
    add(grid, n=4, qmin=0.25)
    add(grid, n=3, qmin=5.0, qmax=0.1, distinct=False)
    add(grid, n=2, qmin=2.0, qmax=2.0, distinct=False)
    for w in ('min', 'max', 'both'):
        add(invalid, which=w)
    if tier == 'thorough':
        for n in (4, 5):
            add(grid, n=n)
        add(grid, n=20, qmin=0.01, qmax=5.0)
        add(grid, n=5, qmin=0.25)
    return out
