"""Canonical real algebra over atoms: the term language of the symbolic executor.

A Poly is a sum of rational multiples of monomials; a monomial is a product of atoms raised to
(possibly fractional or negative) rational powers.  Atoms are input variables, named constants, and
applications of functions (log2, exp2, abs, max, floor, if-then-else, powers of sums).  The normal
form makes syntactic equality strong (log of a product splits, roots and reciprocals merge); it never
decides a property by itself: every assertion is translated to z3 (see core.py).
"""
import math
from fractions import Fraction as Fr

SNAP = 1e-11
SNAPF = Fr(1, 10**11)          # constants closer than this (relative) are the same constant


class Unsupported(Exception):
    """The engine cannot encode this operation."""


class Atom:
    __slots__ = ('id', 'kind', 'data', 'pos', 'nonneg', 'nz', 'isint', 'special')

    def __repr__(self):
        return f'{self.kind}#{self.id}'


ATOMS = []
INTERN = {}


def reset():
    ATOMS.clear()
    INTERN.clear()
    _LOGNUM.clear()
    _CANON.clear()
    _NONNEG.clear()
    FACTS.clear()
    LOGOF.clear()


_CANON = {}
FACTS = {}            # signs learned on the current path: primitive part -> sign or 'nz'
LOGOF = {}            # results of exp2 -> their argument
_NONNEG = set()       # expanded terms known to be nonnegative (squares and their sums)


def note_nonneg(p):
    if len(p.t) > 1 and len(p.t) < 3000 and sign(p) is None:
        _NONNEG.add(canon(split(p, _nonneg)[2]))
    return p


def close(a, b):
    return a == b or abs(a - b) <= SNAPF * max(abs(a), abs(b))


def canon(p):
    """A representative of p among the terms seen so far whose constants differ from those of p by
    at most SNAP (relative): doubles stand for reals up to rounding."""
    k = frozenset(p.t)
    l = _CANON.setdefault(k, [])
    for q in l:
        if q is p or q.t == p.t:
            return q
    for q in l:
        if all(close(c, q.t[m]) for m, c in p.t.items()):
            return q
    l.append(p)
    return p


def intern(kind, data, pos=False, nonneg=False, nz=False, isint=False, special=False, key=None):
    if type(data) is Poly:
        data = canon(data)
    k = (kind, data if key is None else key)
    a = INTERN.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.data = kind, data
        a.pos, a.nonneg, a.nz = pos, nonneg or pos, nz or pos
        a.isint, a.special = isint, special
        ATOMS.append(a)
        INTERN[k] = a
    return a


class Poly:
    __slots__ = ('t', '_h', '_k')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fr(0))

    def __repr__(self):
        return show(self)


ZERO = Poly({})
ONE = Poly({(): Fr(1)})


def C(c):
    c = Fr(c)
    return Poly({(): c}) if c else ZERO


def show(p, depth=3):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: repr(x[0]))[:8]:
        s = ['%g' % float(c)] if c != 1 or not m else []
        for a, e in m:
            s.append(show_atom(ATOMS[a], depth) + ('' if e == 1 else f'^{e}'))
        out.append('*'.join(s))
    if len(p.t) > 8:
        out.append(f'...({len(p.t)} terms)')
    return ' + '.join(out)


def show_atom(a, depth=3):
    if a.kind == 'var':
        return a.data
    if a.kind == 'const':
        return a.data
    if depth == 0:
        return a.kind + '(..)'
    if a.kind == 'exp2':
        return 'exp2(' + show(Poly({a.data: Fr(1)}), depth - 1) + ')'
    if a.kind == 'max':
        return 'max(' + ', '.join(show(p, depth - 1) for p in list(a.data)[:6]) + ')'
    if isinstance(a.data, Poly):
        return f'{a.kind}({show(a.data, depth - 1)})'
    return f'{a.kind}({a.data})'


# ---------------------------------------------------------------- linear operations

def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    if len(p.t) < len(q.t):
        p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        s = t.get(m)
        if s is None:
            t[m] = c
        else:
            n = s + c
            if n and ((s.numerator > 0) == (c.numerator > 0) or abs(n) * RES > abs(c)):
                t[m] = n
            else:
                del t[m]
    return Poly(t)


RES = 10 ** 13        # what remains of a cancellation below 1/RES of its operands is rounding


def addn(ps):
    t = {}
    mixed = {}
    for p in ps:
        for m, c in p.t.items():
            s = t.get(m)
            if s is None:
                t[m] = c
            else:
                if (s.numerator > 0) != (c.numerator > 0):
                    mixed[m] = max(mixed.get(m, 0), abs(float(c)))
                t[m] = s + c
    for m, big in mixed.items():
        if abs(t[m]) * RES < big:
            t[m] = 0
    return Poly({m: c for m, c in t.items() if c})


def scale(p, c):
    if c == 1:
        return p
    if not c:
        return ZERO
    return Poly({m: k * c for m, k in p.t.items()})


def neg(p):
    return Poly({m: -k for m, k in p.t.items()})


def sub(p, q):
    return add(p, neg(q))


# ---------------------------------------------------------------- multiplication

def _norm_e(e):
    if type(e) is Fr and e.denominator == 1:
        return e.numerator
    return e


def mono_mul(m1, m2):
    """Product of two monomials: (mono, coefficient, extra Poly or None)."""
    if not m1:
        return m2, 1, None
    if not m2:
        return m1, 1, None
    out = []
    coef, extra = 1, None
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a1, e1 = m1[i]
        a2, e2 = m2[j]
        if a1 < a2:
            out.append(m1[i])
            i += 1
        elif a2 < a1:
            out.append(m2[j])
            j += 1
        else:
            i += 1
            j += 1
            e = _norm_e(e1 + e2)
            if e == 0:
                continue
            if ATOMS[a1].special:
                e, c, x = _special(ATOMS[a1], e)
                coef = coef * c
                if x is not None:
                    extra = x if extra is None else mul(extra, x)
                if e == 0:
                    continue
            out.append((a1, e))
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), coef, extra


def _special(a, e):
    """Normalises atom**e: returns (remaining exponent, coefficient, extra Poly)."""
    if a.kind == 'num':
        k = math.floor(e)
        return _norm_e(e - k), a.data ** k, None
    if a.kind == 'poly':
        if e >= 1:
            k = math.floor(e)
            if big_power(a.data, k):
                return e, 1, None
            return _norm_e(e - k), 1, powi(a.data, k)
        return e, 1, None
    if a.kind == 'abs':
        if len(a.data.t) > EXPAND:
            return e, 1, None
        if e >= 2:
            k = int(e // 2)
            return _norm_e(e - 2 * k), 1, note_nonneg(powi(a.data, 2 * k))
        if e <= -2 and len(a.data.t) == 1:
            k = int((-e) // 2)
            return _norm_e(e + 2 * k), 1, recip(powi(a.data, 2 * k))
        return e, 1, None
    return e, 1, None


def big_power(p, k):
    return k > 1 and math.comb(len(p.t) + k - 1, k) > 600


MAXTERMS = 60000
EXPAND = 1            # squares of longer sums are kept as powers of |sum|


def square_power(p, n):
    """p ** n, n even, for a long sum p."""
    return _mono_pow_poly(absv(p), n)


def _mono_pow_poly(p, n):
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r


def expand(p):
    """Expands the even powers of |sum| kept by `square_power`."""
    out = []
    for m, c in p.t.items():
        x = None
        rest = []
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'abs' and type(e) is int and e >= 2 and len(at.data.t) > EXPAND:
                k = e // 2 * 2
                y = powi(at.data, k)
                x = y if x is None else mul(x, y)
                if e - k:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        q = Poly({tuple(rest): c})
        out.append(q if x is None else mul(q, x))
    return addn(out)


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if p.is_const():
        return scale(q, p.const())
    if q.is_const():
        return scale(p, q.const())
    if len(p.t) * len(q.t) > 4 * MAXTERMS:
        raise Unsupported('polynomial too large')
    t = {}
    extras = []
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m, k, x = mono_mul(m1, m2)
            c = c1 * c2
            if k != 1:
                c = c * k
            if x is not None:
                extras.append(mul(Poly({m: c}), x))
                continue
            s = t.get(m)
            t[m] = c if s is None else s + c
    r = Poly({m: c for m, c in t.items() if c})
    if extras:
        r = addn([r] + extras)
    return r


def powi(p, n):
    if n == 0:
        return ONE
    r = None
    b = p
    while n:
        if n & 1:
            r = b if r is None else mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


# ---------------------------------------------------------------- atoms as polynomials

def atom_poly(a, e=1):
    return Poly({((a.id, _norm_e(e)),): Fr(1)})


def var(name, **flags):
    return atom_poly(intern('var', name, **flags))


def const_atom(name):
    a = intern('const', name, pos=True)
    return a


# exact value as function name -> float and rational bounds
CONSTS = {
    'ln2': math.log(2),
    'lg10': math.log2(10),
    'pi': math.pi,
}


def cpoly(name, e=1):
    return atom_poly(const_atom(name), e)


# ---------------------------------------------------------------- signs

def mono_sign(m):
    """'+', '0+' or None."""
    strict = True
    for a, e in m:
        at = ATOMS[a]
        if at.pos:
            continue
        if at.nonneg:
            strict = strict and at.nz
            continue
        if type(e) is int and e % 2 == 0:
            strict = strict and (at.nz or e < 0)
            continue
        if type(e) is Fr:      # fractional power: base was checked nonnegative
            strict = strict and (at.nz or e < 0)
            continue
        return None
    return '+' if strict else '0+'


_FLIP = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', 'nz': 'nz', '0': '0'}
_MEET = {('0+', 'nz'): '+', ('0-', 'nz'): '-', ('0+', '+'): '+', ('0-', '-'): '-',
         ('nz', '+'): '+', ('nz', '-'): '-'}


def _put(q, s):
    o = FACTS.get(q)
    if o is not None and o != s:
        s = _MEET.get((o, s)) or _MEET.get((s, o)) or o
    FACTS[q] = s


def learn(b, v=True):
    """Records what the truth value v of the condition b says about the sign of a term."""
    if isinstance(b, bool):
        return
    if b[0] == 'not':
        return learn(b[1], not v)
    if b[0] == 'and':
        if v:
            for x in b[1]:
                learn(x)
        return
    s = {('lt', True): '-', ('lt', False): '0+', ('le', True): '0-', ('le', False): '+',
         ('eq', False): 'nz'}.get((b[0], v))
    if s is None or not b[1].t or len(b[1].t) > 3000:
        return
    q = canon(split(b[1])[2])
    _put(q, s)
    _put(canon(neg(q)), _FLIP[s])


def fact(p):
    """Sign of p by what was learned on the path, or None."""
    if not p.t or len(p.t) > 3000:
        return None
    p = split(p)[2]
    s = FACTS.get(canon(p))
    if s is not None:
        return s
    c0 = p.t.get(())
    if c0 is not None and LOGOF and len(p.t) > 1:
        x = Poly({m: -c / c0 for m, c in p.t.items() if m})
        a = LOGOF.get(canon(x))
        if a is not None:              # p = c0 (1 - 2**a)
            s = sign(a)
            if s is not None:
                return _FLIP[s] if c0 > 0 else s
    return None


def sign(p):
    """Known sign: '+', '0+', '-', '0-', '0' or None."""
    s = _sign(p)
    if s in ('+', '-', '0'):
        return s
    if FACTS or LOGOF:
        f = fact(p)
        if f is not None and f != 'nz':
            s = _MEET.get((s, f)) or f if s is not None else f
        elif f == 'nz' and s is not None:
            s = _MEET.get((s, f), s)
    if s is None and _NONNEG and len(p.t) > 1:
        q = canon(split(p, _nonneg)[2])
        if q in _NONNEG or _sign(q) in ('+', '0+'):
            return '0+'
        if canon(neg(q)) in _NONNEG:
            return '0-'
    return s


def _sign(p):
    if not p.t:
        return '0'
    s = 0
    strict = False
    for m, c in p.t.items():
        ms = mono_sign(m)
        if ms is None:
            return None
        k = 1 if c > 0 else -1
        if s and k != s:
            return None
        s = k
        strict = strict or ms == '+'
    return ('+' if s > 0 else '-') if strict else ('0+' if s > 0 else '0-')


def nonzero(p):
    if sign(p) in ('+', '-'):
        return True
    if (FACTS or LOGOF) and fact(p) == 'nz':
        return True
    if len(p.t) == 1:
        (m, _), = p.t.items()
        return all(ATOMS[a].nz for a, _ in m)
    return False


# ---------------------------------------------------------------- content

def rat_content(ps):
    """A positive constant that scales with the polynomials (stable under rounding)."""
    m, c = None, Fr(1)
    for p in ps:
        for mm, k in p.t.items():
            key = _mono_key(mm)
            if m is None or key < m:
                m, c = key, abs(k)
            elif key == m:
                c = max(c, abs(k))
    return c


def lead_sign(p):
    m = min(p.t, key=_mono_key)
    return 1 if p.t[m] > 0 else -1


def _mono_key(m):
    return (len(m), tuple((a, float(e)) for a, e in m))


def mono_content(ps, pred):
    """Largest common monomial (over atoms satisfying pred) of all terms of all ps."""
    common = None
    for p in ps:
        for m in p.t:
            d = {a: e for a, e in m if pred(ATOMS[a])}
            if common is None:
                common = d
            else:
                new = {}
                for a in common:
                    if a in d and (common[a] > 0) == (d[a] > 0):
                        new[a] = min(common[a], d[a])
                common = new
                if not common:
                    return ()
    return tuple(sorted((a, _norm_e(e)) for a, e in (common or {}).items()))


def mono_inv(m):
    return tuple((a, _norm_e(-e)) for a, e in m)


def mono_div(p, m):
    if not m:
        return p
    return mul_mono_raw(p, mono_inv(m))


def mul_mono_raw(p, m):
    t = {}
    extras = []
    for mm, c in p.t.items():
        r, k, x = mono_mul(mm, m)
        if x is not None:
            extras.append(mul(Poly({r: c * k}), x))
        else:
            t[r] = t.get(r, 0) + c * k
    q = Poly({a: b for a, b in t.items() if b})
    return addn([q] + extras) if extras else q


def _nonneg(a):
    return a.nonneg and a.kind != 'num'


def _pos(a):
    return a.pos and a.kind != 'num'


def split(p, pred=_pos):
    """p = s * c * m * q with s = +-1, c > 0 rational, m monomial over pred atoms, q primitive."""
    m = mono_content([p], pred)
    q = mono_div(p, m)
    lead = min(q.t, key=_lead_key)
    n = tuple((a, e) for a, e in lead if ATOMS[a].kind == 'num')
    if n:
        q = mono_div(q, n)
        m = tuple(sorted(m + n))
    c = rat_content([q])
    q = scale(q, 1 / c)
    return c, m, q


def split_even(p):
    """As split, for a positive p: even powers of nonzero atoms are common factors too (as |atom|)."""
    c, m, q = split(p)
    ev = mono_content([q], _evens)
    ev = tuple((a, e - e % 2 if e > 0 else -(-e - (-e) % 2)) for a, e in ev if type(e) is int)
    ev = tuple((a, e) for a, e in ev if e)
    if not ev:
        return c, m, q
    q = mono_div(q, ev)
    return c, tuple(sorted(m + tuple((_abs_atom(ATOMS[a]).id, e) for a, e in ev))), q


def _evens(a):
    return a.nz and not a.pos and a.kind != 'num'


def _lead_key(m):
    return (_mono_key(tuple(x for x in m if ATOMS[x[0]].kind != 'num')), _mono_key(m))


# ---------------------------------------------------------------- numbers

def _factor_small(n):
    """{prime: power} with primes < 100, or None when something bigger remains."""
    f = {}
    d = 2
    while n > 1 and d < 100:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    return f if n == 1 else None


def _factor(c):
    a, b = _factor_small(c.numerator), _factor_small(c.denominator)
    if a is None or b is None:
        return None
    f = dict(a)
    for p, k in b.items():
        f[p] = f.get(p, 0) - k
    return {p: k for p, k in f.items() if k}


def num_pow(c, e):
    """c ** e for rational c > 0 and rational e."""
    e = Fr(e)
    if e.denominator == 1:
        return C(c ** e.numerator)
    f = _factor(c)
    if f is None:
        return C(approx_pow(c, e))
    r = ONE
    for p, k in f.items():
        ee = e * k
        fl = math.floor(ee)
        r = scale(r, Fr(p) ** fl)
        if ee != fl:
            r = mul(r, atom_poly(intern('num', Fr(p), pos=True, special=True), ee - fl))
    return r


_LOGNUM = {}


def _dec(c):
    from decimal import Decimal
    return Decimal(c.numerator) / Decimal(c.denominator)


def approx_pow(c, e):
    import decimal
    with decimal.localcontext() as l:
        l.prec = 40
        return Fr(_dec(c) ** _dec(e))


def approx_log2(c):
    import decimal
    with decimal.localcontext() as l:
        l.prec = 40
        return Fr(_dec(c).ln() / decimal.Decimal(2).ln())




def num_log2(c):
    if c in _LOGNUM:
        return _LOGNUM[c]
    f = _factor(c)
    if f is None:
        r = C(approx_log2(c))
    else:
        r = ZERO
        for p, k in f.items():
            if p == 2:
                r = add(r, C(k))
            elif p == 5:
                r = add(r, scale(sub(cpoly('lg10'), ONE), Fr(k)))
            else:
                r = add(r, scale(atom_poly(intern('log2num', Fr(p), pos=True)), Fr(k)))
    _LOGNUM[c] = r
    return r


# ---------------------------------------------------------------- functions (domain checked by caller)

def recip(p):
    """1/p, p nonzero."""
    if p.is_const():
        return C(1 / p.const())
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return mul_mono_raw(C(1 / c), ()) if not m else _mono_pow(m, -1, 1 / c)
    c, m, q = split(p, lambda a: a.nz and a.kind != 'num')
    s = lead_sign(q)
    if s < 0:
        q = neg(q)
    sg = sign(q)
    a = intern('poly', q, pos=sg in ('+', '0+'), nz=True, special=True)
    r = scale(atom_poly(a, -1), s / c)
    return mul(r, _mono_pow(m, -1, Fr(1)))


def _mono_pow(m, e, c):
    """c * m**e with special atoms normalised."""
    r = C(c)
    out = []
    for a, k in m:
        at = ATOMS[a]
        ee = _norm_e(Fr(k) * Fr(e)) if (type(e) is Fr or type(k) is Fr) else k * e
        if at.special:
            ee, cc, x = _special(at, ee)
            if cc != 1:
                r = scale(r, Fr(cc))
            if x is not None:
                r = mul(r, x)
            if ee == 0:
                continue
        out.append((a, ee))
    return mul(r, Poly({tuple(out): Fr(1)}))


def powr(p, e):
    """p ** e for rational e; p > 0 known by the caller (p >= 0 suffices when e > 0)."""
    e = Fr(e)
    if e.denominator == 1:
        n = e.numerator
        return powi(p, n) if n >= 0 else recip(powi(p, -n))
    if p.is_const():
        if not p.t:
            return ZERO
        return num_pow(p.const(), e)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = num_pow(abs(c), e)
        odd = []
        for a, k in m:
            at = ATOMS[a]
            if at.nonneg or type(k) is Fr:
                r = mul(r, _mono_pow(((a, k),), e, Fr(1)))
            elif type(k) is int and k % 2 == 0:
                b = _abs_atom(at)
                r = mul(r, _mono_pow(((b.id, k),), e, Fr(1)))
            else:
                odd.append((a, k))
        if odd:
            # odd powers of atoms of unknown sign: opaque, with the sign of the whole
            q = Poly({tuple(odd): Fr(1 if c > 0 else -1)})
            at2 = intern('poly', q, nonneg=True, special=True)
            r = mul(r, atom_poly(at2, e))
        elif c < 0:
            raise Unsupported('fractional power of a negative monomial')
        return r
    c, m, q = split_even(p)
    r = num_pow(c, e)
    r = mul(r, _mono_pow(m, e, Fr(1)))
    a = intern('poly', q, pos=sign(q) == '+', nonneg=True, special=True)
    fl = math.floor(e)
    if fl >= 1:
        r = mul(r, powi(q, fl))
        e = e - fl
    return mul(r, atom_poly(a, e))


def _abs_atom(at):
    return intern('abs', atom_poly(at), nonneg=True, nz=at.nz, pos=at.nz, special=True)


def log2(p):
    """log2 of p, p > 0 known by the caller."""
    if p.is_const():
        return num_log2(p.const())
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = num_log2(abs(c))
        odd = []
        for a, e in m:
            at = ATOMS[a]
            if at.nonneg or type(e) is Fr:
                r = add(r, scale(_log2_atom(at), Fr(e)))
            elif e % 2 == 0:
                r = add(r, scale(_log2_atom(_abs_atom(at)), Fr(e)))
            else:
                odd.append((a, e))
        if odd:
            q = Poly({tuple(odd): Fr(1 if c > 0 else -1)})
            r = add(r, atom_poly(intern('log2', q)))
        return r
    c, m, q = split_even(p)
    r = num_log2(c)
    for a, e in m:
        r = add(r, scale(_log2_atom(ATOMS[a]), Fr(e)))
    return add(r, atom_poly(intern('log2', q)))


def _log2_atom(a):
    if a.kind == 'exp2':
        return Poly({a.data: Fr(1)})
    if a.kind == 'num':
        return num_log2(a.data)
    if a.kind == 'poly':
        return log2(a.data) if len(a.data.t) > 1 and sign(a.data) == '+' \
            else atom_poly(intern('log2', a.data))
    return atom_poly(intern('log2', atom_poly(a)))


def exp2(p):
    r = _exp2(p)
    if not r.is_const():
        LOGOF[canon(r)] = p
    return r


def _exp2(p):
    r = ONE
    for m, c in p.t.items():
        if not m:
            r = mul(r, num_pow(Fr(2), c))
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ('log2', 'log2num'):
            a = ATOMS[m[0][0]]
            base = a.data if a.kind == 'log2' else C(a.data)
            if a.kind == 'log2' and not (len(base.t) == 1):
                if c.denominator == 1 and c > 0 and not big_power(base, c.numerator):
                    r = mul(r, powi(base, c.numerator))
                elif c.denominator == 1:
                    r = mul(r, recip(powi(base, -c.numerator)) if len(base.t) == 1
                            else _polypow(base, c))
                else:
                    r = mul(r, _polypow(base, c))
            else:
                r = mul(r, powr(base, c))
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'const' \
                and ATOMS[m[0][0]].data == 'lg10':
            if c.denominator == 1:
                r = scale(r, Fr(10) ** c.numerator)
            else:
                r = mul(r, num_pow(Fr(10), c))
        else:
            a = intern('exp2', m, pos=True)
            r = mul(r, atom_poly(a, c))
    return r


def _polypow(q, e):
    """q ** e, q multi-term and positive on this path (it has a logarithm)."""
    e = Fr(e)
    c, m, q2 = split_even(q)
    a = intern('poly', q2, pos=True, special=True)
    a.pos = a.nonneg = a.nz = True
    r = mul(num_pow(c, e), _mono_pow(m, e, Fr(1)))
    fl = math.floor(e)
    if fl >= 1 and not big_power(q2, fl):
        r = mul(r, powi(q2, fl))
        e = e - fl
    return mul(r, atom_poly(a, _norm_e(e))) if e else r


def absv(p):
    s = sign(p)
    if s in ('+', '0+', '0'):
        return p
    if s in ('-', '0-'):
        return neg(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = C(abs(c))
        for a, e in m:
            at = ATOMS[a]
            if mono_sign(((a, e),)) is not None:
                r = mul(r, Poly({((a, e),): Fr(1)}))
            else:
                b = _abs_atom(at)
                r = mul(r, _mono_pow(((b.id, e),), 1, Fr(1)) if e != 1 else atom_poly(b))
        return r
    c, m, q = split(p, lambda a: (a.nz or a.kind == 'var') and a.kind != 'num')
    if lead_sign(q) < 0:
        q = neg(q)
    b = intern('abs', q, nonneg=True, special=True)
    r = scale(atom_poly(b), c)
    if m:
        r = mul(r, absv(Poly({m: Fr(1)})))
    return r


def maxn(ps):
    """Maximum of polys (canonical, flattened)."""
    ps = list(ps)
    m = mono_content(ps, _pos) if len(ps) > 1 else ()
    if m and any(not p.t for p in ps):
        m = ()
    if m:
        ps = [mono_div(p, m) for p in ps]
    flat = {}
    cmax = None
    for p in ps:
        if p.is_const():
            cmax = p.const() if cmax is None else max(cmax, p.const())
            continue
        if len(p.t) == 1:
            (mm, c), = p.t.items()
            k = [i for i, (a, e) in enumerate(mm) if ATOMS[a].kind == 'max' and e == 1]
            if len(k) == 1 and c > 0 and all(ATOMS[a].pos for i, (a, e) in enumerate(mm) if i != k[0]):
                f = Poly({mm[:k[0]] + mm[k[0] + 1:]: c})
                for q in ATOMS[mm[k[0]][0]].data:
                    q = mul(q, f)
                    if q.is_const():
                        cmax = q.const() if cmax is None else max(cmax, q.const())
                    else:
                        flat[q] = 1
                continue
        flat[p] = 1
    if cmax is not None:
        if cmax <= 0 and any(sign(p) in ('+', '0+') for p in flat):
            cmax = None
        elif cmax >= 0 and flat and all(sign(p) in ('-', '0-') for p in flat):
            flat = {}
    items = list(flat)
    if cmax is not None:
        items.append(C(cmax))
    nm = ()
    m2 = mono_content(items, _pos) if len(items) > 1 and cmax is None else ()
    if m2:
        items = [mono_div(p, m2) for p in items]
    if len(items) > 1:
        lead = min((mm for p in items for mm in p.t), key=_lead_key)
        nm = tuple((a, e) for a, e in lead if ATOMS[a].kind == 'num')
        if nm:
            items = [mono_div(p, nm) for p in items]
    if len(items) == 1:
        r = items[0]
    else:
        # drop proportional dominated terms: c1*P vs c2*P with P >= 0
        best = {}
        rest = []
        for p in items:
            if len(p.t) == 1 and sign(p) in ('+', '0+'):
                (mm, c), = p.t.items()
                if mm not in best or best[mm] < c:
                    best[mm] = c
            else:
                rest.append(p)
        items = rest + [Poly({mm: c}) for mm, c in best.items()]
        if len(items) == 1:
            r = items[0]
        else:
            c = rat_content(items)
            items = frozenset(canon(scale(p, 1 / c)) for p in items)
            sg = [sign(p) for p in items]
            a = intern('max', items, pos='+' in sg, nonneg='+' in sg or '0+' in sg, key=items)
            r = scale(atom_poly(a), c)
    if nm:
        r = mul(r, Poly({nm: Fr(1)}))
    if m2:
        r = mul(r, Poly({m2: Fr(1)}))
    if m:
        r = mul(r, Poly({m: Fr(1)}))
    return r


# ---------------------------------------------------------------- booleans

def b_cmp(op, p):
    """op in 'lt','le','eq': p < 0, p <= 0, p == 0. Returns bool or tree."""
    if p.is_const():
        c = p.const()
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op]
    s = sign(p)
    if s == '+':
        return False
    if s == '-':
        return op != 'eq'
    if s == '0+' and op == 'lt':
        return False
    if s == '0-' and op == 'le':
        return True
    if op == 'eq' and nonzero(p):
        return False
    if op != 'eq' and len(p.t) <= 12:
        mx = [(m, k) for m, k in p.t.items() if any(ATOMS[a].kind == 'max' for a, _ in m)]
        if len(mx) == 1:
            (m, k), = mx
            ix = [i for i, (a, e) in enumerate(m) if ATOMS[a].kind == 'max']
            it = ATOMS[m[ix[0]][0]].data
            if len(ix) == 1 and m[ix[0]][1] == 1 and len(it) <= 8 and sum(len(q.t) for q in it) < 200 \
                    and all(ATOMS[a].pos for i, (a, e) in enumerate(m) if i != ix[0]):
                f = Poly({m[:ix[0]] + m[ix[0] + 1:]: k})
                rest = Poly({n: c for n, c in p.t.items() if n != m})
                bs = [b_cmp(op, add(mul(q, f), rest)) for q in sorted(it, key=lambda q: repr(q.key))]
                return b_and(bs) if k > 0 else b_or(bs)
    b = _cmp_floor(op, p)
    if b is not None:
        return b
    if op == 'eq' and len(p.t) <= 4 and any(ATOMS[a].kind == 'max' for m in p.t for a, _ in m):
        return b_and([b_not(b_cmp('lt', p)), b_not(b_cmp('lt', neg(p)))])
    r = _cmp_logs(p)
    if r is not None:
        return b_cmp(op, r)
    c = rat_content([p])
    p = scale(p, 1 / c)
    if op == 'eq' and lead_sign(p) < 0:
        p = neg(p)
    if op == 'le':
        return b_not(('lt', canon(neg(p))))
    return (op, canon(p))


def _cmp_floor(op, p):
    """+-floor(q) + n compared with 0, n an integer: a comparison of q."""
    fl = [(m, k) for m, k in p.t.items() if m]
    if len(fl) != 1 or len(fl[0][0]) != 1 or fl[0][0][0][1] != 1:
        return None
    (m, k), = fl
    a = ATOMS[m[0][0]]
    n = -p.const() / k                      # floor(q) against n
    if a.kind != 'floor':
        return None
    if n.denominator != 1:
        if op == 'eq':
            return False
        # floor(q) < n  <=>  floor(q) <= floor(n)
        n = Fr(math.floor(n))
        b = b_cmp('lt', sub(a.data, C(n + 1)))
        return b if k > 0 else b_not(b)
    less = b_cmp('lt', sub(a.data, C(n)))           # floor(q) < n
    more = b_not(b_cmp('lt', sub(a.data, C(n + 1))))     # floor(q) > n
    if op == 'eq':
        return b_and([b_not(less), b_not(more)])
    if op == 'lt':
        return less if k > 0 else more
    return b_not(more) if k > 0 else b_not(less)


def _cmp_logs(p):
    """A polynomial with the sign of p, for p = c + sum of k_i log2(q_i) with small integer k_i and
    single-term arguments."""
    if len(p.t) > 5:
        return None
    den = 1
    logs = []
    for m, k in p.t.items():
        if not m:
            continue
        if len(m) != 1 or m[0][1] != 1 or not (ATOMS[m[0][0]].kind in ('log2', 'log2num')
                                               or ATOMS[m[0][0]].data == 'lg10'):
            return None
        logs.append((ATOMS[m[0][0]], k))
        den = den * k.denominator // math.gcd(den, k.denominator)
    c = p.const() * den
    if not any(a.kind == 'log2' for a, _ in logs) or den > 4 or c.denominator != 1 or abs(c) > 64 \
            or sum(abs(k) * den for _, k in logs) > 6:
        return None
    hi, lo = ONE, ONE
    if c > 0:
        hi = C(Fr(2) ** c.numerator)
    else:
        lo = C(Fr(2) ** -c.numerator)
    for a, k in logs:
        q = a.data if a.kind == 'log2' else C(10 if a.data == 'lg10' else a.data)
        if len(q.t) != 1:
            return None
        if k > 0:
            hi = mul(hi, powi(q, int(k * den)))
        else:
            lo = mul(lo, powi(q, int(-k * den)))
    return sub(hi, lo)


def b_not(b):
    if isinstance(b, bool):
        return not b
    if b[0] == 'not':
        return b[1]
    return ('not', b)


def b_and(bs):
    out = []
    for b in bs:
        if b is False:
            return False
        if b is True:
            continue
        if b not in out:
            out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else ('and', tuple(out))


def b_or(bs):
    return b_not(b_and([b_not(b) for b in bs]))


def ite(b, p, q):
    if b is True:
        return p
    if b is False:
        return q
    p, q = canon(p), canon(q)
    if p == q:
        return p
    s1, s2 = sign(p), sign(q)
    ok = ('+', '0+', '0')
    return atom_poly(intern('ite', (b, p, q), nonneg=s1 in ok and s2 in ok,
                            pos=s1 == '+' and s2 == '+'))


def floorv(p):
    if p.is_const():
        return C(math.floor(p.const()))
    c = Fr(math.floor(p.const()))
    q = sub(p, C(c))
    if all(_is_int_mono(m, k) for m, k in q.t.items()):
        return p if p.const().denominator == 1 else add(q, C(c))
    return add(atom_poly(intern('floor', q, isint=True)), C(c))


def _is_int_mono(m, c):
    return c.denominator == 1 and all(ATOMS[a].isint and type(e) is int and e >= 0 for a, e in m)


# ---------------------------------------------------------------- numeric evaluation

class EvalError(Exception):
    pass


class Eval:
    """Numeric evaluation of terms for given values of the input variables."""

    def __init__(self, env):
        self.env = env
        self.memo = {}

    def poly(self, p):
        s = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                b = self.atom(a)
                if e == 1:
                    v *= b
                else:
                    if type(e) is not int and b < 0:
                        raise EvalError('negative base')
                    if b == 0 and e < 0:
                        raise EvalError('zero base')
                    v *= b ** (e if type(e) is int else float(e))
            s += v
        return s

    def atom(self, i):
        v = self.memo.get(i)
        if v is None:
            v = self.memo[i] = self._atom(ATOMS[i])
        return v

    def _atom(self, a):
        k = a.kind
        if k == 'var':
            return float(self.env[a.data])
        if k == 'const':
            return CONSTS[a.data]
        if k == 'num':
            return float(a.data)
        if k == 'log2num':
            return math.log2(a.data)
        if k == 'poly':
            return self.poly(a.data)
        if k == 'log2':
            v = self.poly(a.data)
            if v <= 0:
                raise EvalError('log of nonpositive')
            return math.log2(v)
        if k == 'exp2':
            return 2.0 ** self.poly(Poly({a.data: Fr(1)}))
        if k == 'abs':
            return abs(self.poly(a.data))
        if k == 'max':
            return max(self.poly(p) for p in a.data)
        if k == 'floor':
            return float(math.floor(self.poly(a.data)))
        if k == 'ite':
            b, p, q = a.data
            return self.poly(p) if self.bool(b) else self.poly(q)
        raise EvalError(k)

    def bool(self, b):
        if isinstance(b, bool):
            return b
        if b[0] == 'not':
            return not self.bool(b[1])
        if b[0] == 'and':
            return all(self.bool(x) for x in b[1])
        v = self.poly(b[1])
        return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[b[0]]


# ---------------------------------------------------------------- substitution

class Subst:
    """Replaces variables (atom ids) by terms, rebuilding the normal form."""

    def __init__(self, env):
        self.env = env
        self.memo = {}

    def poly(self, p):
        if not any(self.atom(a) is not None for m in p.t for a, _ in m):
            return p
        out = []
        for m, c in p.t.items():
            q = C(c)
            for a, e in m:
                s = self.atom(a)
                q = mul(q, atom_poly(ATOMS[a], e) if s is None else
                        (powi(s, e) if type(e) is int and e > 0 else powr(s, e)))
            out.append(q)
        return addn(out)

    def atom(self, i):
        """The replacement of atom i, or None when nothing changes."""
        if i not in self.memo:
            self.memo[i] = self._atom(ATOMS[i])
        return self.memo[i]

    def _atom(self, a):
        k, d = a.kind, a.data
        if k == 'var':
            return self.env.get(a.id)
        if k in ('const', 'num', 'log2num'):
            return None
        if k == 'exp2':
            p = Poly({d: Fr(1)})
            q = self.poly(p)
            return None if q is p else exp2(q)
        if k == 'max':
            q = [self.poly(p) for p in d]
            return None if all(x is y for x, y in zip(q, d)) else maxn(q)
        if k == 'ite':
            b, p, q = d
            nb, np_, nq = self.bool(b), self.poly(p), self.poly(q)
            return None if nb is b and np_ is p and nq is q else ite(nb, np_, nq)
        q = self.poly(d)
        if q is d:
            return None
        return {'poly': lambda x: x, 'log2': log2, 'abs': absv, 'floor': floorv}[k](q)

    def bool(self, b):
        if isinstance(b, bool):
            return b
        if b[0] == 'not':
            x = self.bool(b[1])
            return b if x is b[1] else b_not(x)
        if b[0] == 'and':
            xs = [self.bool(x) for x in b[1]]
            return b if all(x is y for x, y in zip(xs, b[1])) else b_and(xs)
        q = self.poly(b[1])
        return b if q is b[1] else b_cmp(b[0], q)


def pins(pc):
    """Variables fixed by equalities of a path condition: {atom id: constant term}."""
    out = {}
    for b in pc:
        if b[0] == 'eq' and len(b[1].t) <= 2:
            vs = [(m, c) for m, c in b[1].t.items() if m]
            if len(vs) == 1 and len(vs[0][0]) == 1 and vs[0][0][0][1] == 1 \
                    and ATOMS[vs[0][0][0][0]].kind == 'var':
                out[vs[0][0][0][0]] = C(-b[1].t.get((), Fr(0)) / vs[0][1])
    return out


# ---------------------------------------------------------------- cancellation of quotients

def cancel(p, raw=False, rounds=6):
    """Rewrites sums u*b1/B + u*b2/B + ... with B = b1 + b2 + ... as u (u any monomial)."""
    for _ in range(rounds):
        dens = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and ATOMS[a].kind == 'poly':
                    dens.setdefault(a, set()).add(e)
        done = True
        for a in sorted(dens):
            B = ATOMS[a].data if raw else expand(ATOMS[a].data)
            if len(B.t) > 600 or len(B.t) < 2:
                continue
            # the longest-looking term first: it identifies the cofactor best
            lead = max(B.t, key=lambda m: (len(m), m))
            lc = B.t[lead]
            t = dict(p.t)
            out = ZERO
            hit = False
            for e in sorted(dens[a]):
                for m in [m for m in t if (a, e) in m]:
                    c = t.get(m)
                    if not c:
                        continue
                    rest = tuple(x for x in m if x != (a, e))
                    u, k, x = mono_mul(rest, mono_inv(lead))
                    if x is not None or any(f < 0 and ATOMS[b].kind != 'poly' for b, f in u):
                        continue
                    k = Fr(k)
                    f = c * k / lc
                    uB = mul(Poly({u: f}), B)
                    uBA = mul_mono_raw(uB, ((a, e),))
                    if not all(n in t and close(abs(t[n]), abs(v)) and (t[n] > 0) == (v > 0)
                               for n, v in uBA.t.items()) and not _covers(t, uBA):
                        continue
                    for n, v in uBA.t.items():
                        r = t.get(n, 0) - v
                        if abs(r) * 10**9 <= abs(v):
                            t.pop(n, None)
                        else:
                            t[n] = r
                    out = add(out, mul(Poly({u: f}), atom_poly(ATOMS[a], e + 1) if e != -1 else ONE))
                    hit = True
            if hit:
                p = add(Poly({m: c for m, c in t.items() if c}), out)
                done = False
        if done:
            return p
    return p


def _covers(t, q):
    """At least all terms of q but tiny ones are present in t with a compatible sign."""
    return all(n in t and (t[n] > 0) == (v > 0) for n, v in q.t.items())


def clear(ps, limit=20000, rounds=12):
    """Multiplies all of ps by the same nonzero sums until none of them divides a term any more.

    The sums are those the code divided by, nonzero on the path; ps are equal iff the results are."""
    for _ in range(rounds):
        dens = {}
        for p in ps:
            for m in p.t:
                for a, e in m:
                    if e < 0 and ATOMS[a].kind == 'poly' and ATOMS[a].nz:
                        dens[a] = min(dens.get(a, 0), e)
        if not dens:
            return ps
        a = max(dens)                 # interned last: contains the others
        k = math.ceil(-dens[a])
        B = expand(ATOMS[a].data)
        pw = [ONE]
        out = []
        for p in ps:
            parts = {}
            for m, c in p.t.items():
                e = next((f for x, f in m if x == a), 0)
                rest = tuple(x for x in m if x[0] != a)
                n = math.floor(e + k)
                f = e + k - n
                if f:
                    rest = mono_mul(rest, ((a, _norm_e(f)),))
                    if rest[1] != 1 or rest[2] is not None:
                        return None
                    rest = rest[0]
                parts.setdefault(n, {})[rest] = parts.get(n, {}).get(rest, 0) + c
            terms = []
            for n, t in parts.items():
                while len(pw) <= n:
                    if len(pw[-1].t) * len(B.t) > limit:
                        return None
                    pw.append(mul(pw[-1], B))
                if len(t) * len(pw[n].t) > limit:
                    return None
                terms.append(mul(Poly({m: c for m, c in t.items() if c}), pw[n]))
            out.append(addn(terms) if terms else ZERO)
        ps = out
    return None


CONST_KINDS = ('const', 'num', 'log2num')


def numeric(p):
    """{monomial without constants: float coefficient}; exponents that differ by rounding only are
    identified."""
    ev = Eval({})
    out, orig = {}, {}
    for m, c in p.t.items():
        v, rest = float(c), []
        for x, e in m:
            if ATOMS[x].kind in CONST_KINDS:
                v *= ev.atom(x) ** float(e)
            elif isinstance(e, Fr) and e.denominator > 1 << 40:
                rest.append((x, round(float(e), 9)))
            else:
                rest.append((x, e))
        rest = tuple(rest)
        out[rest] = out.get(rest, 0.0) + v
        orig.setdefault(rest, {})[m] = c
    return out, orig
