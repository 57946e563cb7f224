"""Symbolic scalars, path exploration and the z3 back end."""
import math
import random
import time
import itertools
from fractions import Fraction as Fr

import numpy as np
import z3

from . import alg
from .alg import Poly, Unsupported, Fr as _Fr  # noqa: F401

NAN = float('nan')
INF = float('inf')


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


class Budget(BaseException):
    """Out of time."""


# ---------------------------------------------------------------- constants

_SNAP = {}
_SPECIAL = None


def _specials():
    global _SPECIAL
    if _SPECIAL is None:
        _SPECIAL = [
            (math.log(2), lambda: alg.cpoly('ln2')),
            (1 / math.log(2), lambda: alg.cpoly('ln2', -1)),
            (math.e, lambda: alg.exp2(alg.cpoly('ln2', -1))),
            (math.pi, lambda: alg.cpoly('pi')),
            (math.log2(10), lambda: alg.cpoly('lg10')),
            (1 / math.log2(10), lambda: alg.cpoly('lg10', -1)),
            (math.log(10), lambda: alg.mul(alg.cpoly('ln2'), alg.cpoly('lg10'))),
            (1 / math.log(10), lambda: alg.mul(alg.cpoly('ln2', -1), alg.cpoly('lg10', -1))),
        ]
    return _SPECIAL


def snap(f):
    """Exact real number meant by the double f (as a function returning a Poly)."""
    r = _SNAP.get(f)
    if r is None:
        r = _SNAP[f] = _snap(f)
    return r()


def _snap(f):
    fr = Fr(f)
    if fr.denominator <= 4096 or fr == 0:
        p = fr
        return lambda: alg.C(p)
    lim = fr.limit_denominator(20000)
    if abs(lim - fr) <= abs(fr) * Fr(1, 10**15) * 4:
        return lambda: alg.C(lim)
    s = 1 if f > 0 else -1
    for v, mk in _specials():
        q = Fr(abs(f) / v).limit_denominator(32)
        if q and abs(abs(f) / v - float(q)) <= 2e-15 * float(q):
            return lambda mk=mk, q=q: alg.scale(mk(), s * q)
    if 1e-100 < abs(f) < 1e100:
        e = math.log2(abs(f))
        le = Fr(e).limit_denominator(60)
        if abs(e - float(le)) <= 4e-16 * max(1.0, abs(e)) * 2:
            return lambda: alg.scale(alg.num_pow(Fr(2), le), s)
    sq = Fr(f * f).limit_denominator(200)
    if sq and abs(f * f - float(sq)) <= 2e-15 * float(sq) and alg._factor(sq) is not None:
        return lambda: alg.scale(alg.num_pow(sq, Fr(1, 2)), s)
    return lambda: alg.C(fr)


NUM = (int, float, np.integer, np.floating, np.bool_, Fr)


def is_num(x):
    return isinstance(x, NUM)


def to_poly(x):
    """Poly of an SV or a finite number."""
    if type(x) is SV:
        return x.p
    if isinstance(x, (bool, np.bool_)):
        return alg.C(int(x))
    if isinstance(x, (int, np.integer)):
        return alg.C(int(x))
    if isinstance(x, Fr):
        return alg.C(x)
    if isinstance(x, (float, np.floating)):
        return snap(float(x))
    if isinstance(x, SymBool):
        return alg.ite(x.b, alg.ONE, alg.ZERO)
    raise Unsupported(f'not a real scalar: {type(x)}')


def finite(x):
    if type(x) is SV or isinstance(x, SymBool):
        return True
    if isinstance(x, (float, np.floating)):
        return math.isfinite(x)
    return True


# ---------------------------------------------------------------- context

class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.branch_queries = 0
        self.branches = 0
        self.paths = 0
        self.obligations = 0
        self.scalars = 0
        self.identical = 0
        self.refined = 0
        self.maxtime = 0.0
        self.generic = 0
        self.lemma_queries = 0

    def dict(self):
        return dict(self.__dict__)


class Translator:
    """Terms -> z3 expressions, collecting defining axioms of atoms."""

    def __init__(self):
        self.memo = {}
        self.bmemo = {}
        self.cache = {}
        self.axioms = []
        self.pure = []          # (kind, argument z3, variable z3) of opaque function atoms

    def poly(self, p):
        r = self.memo.get(p)
        if r is None:
            ts = []
            for m, c in sorted(p.t.items(), key=lambda x: alg._mono_key(x[0])):
                fs = [self.power(a, e) for a, e in m]
                k = z3.RealVal(str(c))
                if not fs:
                    ts.append(k)
                    continue
                e = fs[0] if len(fs) == 1 else z3.Product(*fs)
                ts.append(e if c == 1 else k * e)
            r = z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(*ts))
            self.memo[p] = r
        return r

    def _pw(self, x, n):
        return x if n == 1 else z3.Product(*([x] * n))

    def power(self, a, e):
        if type(e) is int:
            b = self.atom(a)
            if e > 0:
                return self._pw(b, e)
            return self._pw(self.inv(('i', a), b, alg.ATOMS[a].pos), -e)
        d, n = e.denominator, e.numerator
        if d <= 4:
            k = ('r', a, d)
            s = self.cache.get(k)
            if s is None:
                s = self.cache[k] = z3.Real(f'root{a}_{d}')
                b = self.atom(a)
                self.axioms.append(s > 0 if alg.ATOMS[a].pos else s >= 0)
                self.axioms.append(self._pw(s, d) == b)
            if n > 0:
                return self._pw(s, n)
            return self._pw(self.inv(k, s, True), -n)
        k = ('p', a, e)
        s = self.cache.get(k)
        if s is None:
            s = self.cache[k] = z3.Real(f'pow{a}_{n}_{d}'.replace('-', 'm'))
            self.axioms.append(s > 0)
            self.pure.append((('pow', e), self.atom(a), s))
        return s

    def inv(self, key, b, pos):
        k = ('inv', key)
        t = self.cache.get(k)
        if t is None:
            t = self.cache[k] = z3.Real('inv_' + '_'.join(str(x) for x in key))
            self.axioms.append(t * b == 1)
            if pos:
                self.axioms.append(t > 0)
        return t

    def atom(self, i):
        k = ('a', i)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._atom(alg.ATOMS[i])
        return r

    def _atom(self, a):
        k = a.kind
        if k == 'var':
            if a.isint:
                x = z3.Int(a.data)
                r = z3.ToReal(x)
            else:
                r = z3.Real(a.data)
            if a.pos:
                self.axioms.append(r > 0)
            elif a.nonneg:
                self.axioms.append(r >= 0)
            elif a.nz:
                self.axioms.append(r != 0)
            return r
        if k in ('const', 'log2num'):
            v = alg.CONSTS[a.data] if k == 'const' else math.log2(a.data)
            r = z3.Real(f'{k}_{a.data}'.replace('/', '_'))
            lo, hi = Fr(v) - Fr(1, 10**15) * 8, Fr(v) + Fr(1, 10**15) * 8
            self.axioms += [r > z3.RealVal(str(lo)), r < z3.RealVal(str(hi))]
            return r
        if k == 'num':
            return z3.RealVal(str(a.data))
        if k == 'poly':
            return self.poly(a.data)
        if k == 'abs':
            x = self.poly(a.data)
            return z3.If(x >= 0, x, -x)
        if k == 'max':
            r = z3.Real(f'max{a.id}')
            xs = [self.poly(p) for p in a.data]
            self.axioms += [r >= x for x in xs]
            self.axioms.append(z3.Or(*[r == x for x in xs]))
            return r
        if k == 'ite':
            b, p, q = a.data
            return z3.If(self.bool(b), self.poly(p), self.poly(q))
        if k == 'floor':
            n = z3.ToInt(self.poly(a.data))
            r = z3.ToReal(n)
            self.floor_lemmas(a, r)
            return r
        if k == 'log2':
            x = self.poly(a.data)
            r = z3.Real(f'log{a.id}')
            self.axioms.append(z3.And((x > 1) == (r > 0), (x == 1) == (r == 0)))
            if CTX is not None and CTX.log_grid:
                for g in CTX.log_grid:
                    self.axioms.append((x >= z3.RealVal(str(Fr(2) ** g))) == (r >= g))
            self.pure.append((('log2',), x, r))
            return r
        if k == 'exp2':
            x = self.poly(Poly({a.data: Fr(1)}))
            r = z3.Real(f'exp{a.id}')
            self.axioms += [r > 0, z3.And((x > 0) == (r > 1), (x == 0) == (r == 1))]
            self.pure.append((('exp2',), x, r))
            self.exp_lemmas(a, r)
            return r
        raise Unsupported(f'atom {k}')

    def floor_lemmas(self, a, r):
        pass

    def exp_lemmas(self, a, r):
        """exp2(t * log2 X) at the exponents t the code may special-case."""
        m = a.data
        logs = [x for x, e in m if e == 1 and alg.ATOMS[x].kind in ('log2', 'log2num')]
        for x in logs:
            base = alg.ATOMS[x].data
            base = base if isinstance(base, Poly) else alg.C(base)
            rest = Poly({tuple((b, e) for b, e in m if b != x): Fr(1)})
            t, q = self.poly(rest), self.poly(base)
            self.axioms += [
                z3.Implies(t == 1, r == q), z3.Implies(t == 2, r == q * q),
                z3.Implies(t == 3, r == q * q * q),
                z3.Implies(t == -1, r * q == 1), z3.Implies(t * 2 == 1, r * r == q),
                z3.Implies(t == 0, r == 1)]

    def bool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        r = self.bmemo.get(b)
        if r is None:
            k = b[0]
            if k == 'not':
                r = z3.Not(self.bool(b[1]))
            elif k == 'and':
                r = z3.And(*[self.bool(x) for x in b[1]])
            else:
                x = self.poly(b[1])
                r = x < 0 if k == 'lt' else (x <= 0 if k == 'le' else x == 0)
            self.bmemo[b] = r
        return r

    def lemmas(self, limit=48):
        """Congruence and monotonicity of the opaque functions (refinement step)."""
        out = []
        groups = {}
        for kind, x, v in self.pure:
            groups.setdefault(kind, []).append((x, v))
        for kind, xs in groups.items():
            up = True
            if kind[0] == 'pow':
                up = kind[1] > 0
            if len(xs) > limit:
                continue
            for (x1, v1), (x2, v2) in itertools.combinations(xs, 2):
                if up:
                    out.append(z3.And((x1 < x2) == (v1 < v2), (x1 == x2) == (v1 == v2)))
                else:
                    out.append(z3.And((x1 < x2) == (v1 > v2), (x1 == x2) == (v1 == v2)))
        return out


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic operation outside a symbolic run')
    return CTX


class Ctx:
    """One path of one symbolic run."""

    def __init__(self, prefix, stats, deadline, log_grid=None, timeout=20.0, fork_limit=400,
                 zero='fork'):
        self.zero = zero
        self.prefix = list(prefix)
        self.trace = []           # decisions taken on this path
        self.pending = []         # alternatives discovered on this path
        self.pc = []              # bool trees
        self.stats = stats
        self.deadline = deadline
        self.log_grid = log_grid
        self.timeout = timeout
        self.fork_limit = fork_limit
        self.tr = Translator()
        self.vars = []            # (name, Poly, meta)
        self.known = {}
        self.samples = None

    # -- sample points: cheap witnesses of feasibility (never evidence of infeasibility)
    def points(self):
        """Evaluators at a few sample inputs that satisfy the path condition."""
        if self.samples is None:
            self.samples = [[alg.Eval({}), 0, random.Random(97 + k)] for k in range(8)]
        out = []
        for s in self.samples:
            ev, n, rng = s
            if n < 0:
                continue
            for name, p, meta in self.vars[len(ev.env):]:
                ev.env[name] = _draw(rng, meta)
            try:
                while s[1] < len(self.pc):
                    if not ev.bool(self.pc[s[1]]):
                        s[1] = -1
                        break
                    s[1] += 1
            except (alg.EvalError, KeyError, OverflowError, ValueError, ZeroDivisionError):
                s[1] = -1
            if s[1] >= 0:
                out.append(ev)
        return out

    def witness(self, b):
        for ev in self.points():
            try:
                if ev.bool(b):
                    return ev
            except (alg.EvalError, KeyError, OverflowError, ValueError, ZeroDivisionError):
                pass
        return None

    # -- solver
    def solve(self, extra, timeout=None, want_model=False, lemmas=False):
        """'unsat' | 'sat' | 'unknown' (and a model) for pc and extra (z3 formulas)."""
        if time.time() > self.deadline:
            raise Budget()
        timeout = min(timeout or self.timeout, max(1.0, self.deadline - time.time()))
        pc = [self.tr.bool(b) for b in self.pc]
        fs = pc + list(extra)
        lem = self.tr.lemmas() if lemmas else []
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*self.tr.axioms)
        s.add(*fs)
        s.add(*lem)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        st = self.stats
        st.time += dt
        st.maxtime = max(st.maxtime, dt)
        st.queries += 1
        res = str(r)
        if res == 'sat':
            st.sat += 1
        elif res == 'unsat':
            st.unsat += 1
        else:
            st.unknown += 1
        if want_model:
            return res, (s.model() if res == 'sat' else None)
        return res

    def feasible(self, b):
        self.stats.branch_queries += 1
        if self.witness(b) is not None:
            return True
        r = self.solve([self.tr.bool(b)], timeout=2.0)
        return r != 'unsat'

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise PathAbort()
        self.pc.append(b)
        self.known[b] = True
        alg.learn(b)

    def branch(self, b):
        """Decide a boolean tree, forking when both outcomes are possible."""
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        base, flip = (b[1], True) if b[0] == 'not' else (b, False)
        if base in self.known:
            return self.known[base] != flip
        if self.zero == 'assume':
            g = self.generic(base)
            if g is not None:
                # a measure-zero coincidence: outside the bound of an 'assume' case
                for x in g[1]:
                    if x not in self.known:
                        self.stats.generic += 1
                        self.assume(alg.b_not(x))
                        self.known[x] = False
                self.known[base] = g[0]
                return g[0] != flip
        i = len(self.trace)
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            if kind not in ('b', 'f'):
                raise Unsupported('nondeterministic replay of a path')
            self.trace.append((kind, v))
        else:
            if time.time() > self.deadline:
                raise Budget()
            self.stats.branches += 1
            t = self.feasible(base)
            f = self.feasible(alg.b_not(base)) if t else True
            if not t and not self.pc_sat_checked(base):
                raise PathAbort()
            if t and f:
                if len([1 for k, _ in self.trace if k == 'b']) >= self.fork_limit:
                    raise Unsupported('too many forks on one path')
                self.pending.append(self.trace + [('b', False)])
                v = True
                self.trace.append(('b', True))
            else:
                v = t
                self.trace.append(('f', v))
        self.pc.append(base if v else alg.b_not(base))
        self.known[base] = v
        alg.learn(base, v)
        return v != flip

    def generic(self, b):
        """(truth value, equalities excluded) when b only asks whether terms with logarithms (or
        sums of one sign) vanish."""
        if b[0] == 'eq':
            if b in self.known or any(alg.ATOMS[a].kind == 'log2' for m in b[1].t for a, _ in m):
                return self.known.get(b, False), [b]
            return None
        if b[0] == 'lt':
            if len(b[1].t) > 1 and alg.sign(b[1]) == '0-':
                e = alg.b_cmp('eq', b[1])
                return None if isinstance(e, bool) or e[0] != 'eq' else (True, [e])
            return None
        if b[0] == 'not':
            g = self.generic(b[1])
            return g and (not g[0], g[1])
        if b[0] == 'and' and len(b[1]) == 2 and all(x[0] == 'not' and x[1][0] == 'lt' for x in b[1]):
            p, q = b[1][0][1][1], b[1][1][1][1]
            if not alg.add(p, q).t and any(alg.ATOMS[a].kind == 'max' for m in p.t for a, _ in m):
                return self.known.get(b, False), [b]
        if b[0] in ('and', 'or'):
            gs = [self.generic(x) for x in b[1]]
            if any(g is None for g in gs):
                return None
            f = all if b[0] == 'and' else any
            return f(g[0] for g in gs), [x for g in gs for x in g[1] if not self.known.get(x)]
        return None

    def pc_sat_checked(self, base):
        return True

    def concretize(self, p):
        """A concrete integer value of an integer-valued term (forks over the others)."""
        if p.is_const():
            c = p.const()
            if c.denominator != 1:
                return math.floor(c) if c >= 0 else math.ceil(c)
            return c.numerator
        tried = set()
        for _ in range(4000):
            i = len(self.trace)
            if i < len(self.prefix):
                kind, v = self.prefix[i]
                if kind != 'i':
                    raise Unsupported('nondeterministic replay of a path')
                val, taken = v
                self.trace.append((kind, v))
            else:
                val = self._candidate(p, tried)
                tried.add(val)
                b = alg.b_cmp('eq', alg.sub(p, alg.C(val)))
                taken = b is True or (b is not False and self.feasible(b))
                self.stats.branches += 1
                if taken and not isinstance(b, bool) and self.feasible(alg.b_not(b)):
                    self.pending.append(self.trace + [('i', (val, False))])
                self.trace.append(('i', (val, taken)))
            b = alg.b_cmp('eq', alg.sub(p, alg.C(val)))
            tried.add(val)
            if taken:
                if b is False:
                    raise PathAbort()
                if not isinstance(b, bool):
                    self.pc.append(b)
                    self.known[b] = True
                    alg.learn(b)
                return val
            if b is True:
                raise PathAbort()
            if not isinstance(b, bool):
                self.pc.append(alg.b_not(b))
                self.known[b] = False
                alg.learn(b, False)
        raise Unsupported('concretisation limit')

    def _candidate(self, p, tried):
        for ev in self.points():
            try:
                v = int(ev.poly(p))
            except (alg.EvalError, KeyError, OverflowError, ValueError, ZeroDivisionError):
                continue
            if v not in tried:
                return v
        k = z3.Int('k!conc')
        for lem in (False, True):
            out = [k != v for v in sorted(tried)]
            self.tr.poly(p)
            logs = [(x, r) for kind, x, r in self.tr.pure if kind == ('log2',)]
            if len(logs) <= 6:
                out += [(x >= z3.RealVal(str(Fr(2) ** g))) == (r >= g)
                        for x, r in logs for g in range(-6, 45)]
            r, m = self.solve([z3.ToReal(k) == self.tr.poly(p)] + out, want_model=True, lemmas=lem)
            if r == 'unsat':
                r0 = self.solve([]) if not tried else 'unsat'
                if r0 == 'unsat':
                    raise PathAbort()
                raise Unsupported('cannot concretise an integer')
        if r != 'sat':
            raise Unsupported('cannot concretise an integer')
        return int(_num(m.eval(k, model_completion=True)))

    def model_inputs(self, m):
        out = {}
        for name, p, meta in self.vars:
            v = m.eval(self.tr.poly(p), model_completion=True)
            x = _num(v)
            out[name] = 0.0 if x is None else x
        return out


def _draw(rng, meta):
    lo, hi, dom = meta.get('lo'), meta.get('hi'), meta.get('dom')
    if dom == 'int':
        return rng.randint(int(lo), int(hi)) if lo is not None and hi is not None \
            else rng.randint(1, 40) + int(lo or 0)
    if lo is not None and hi is not None:
        return rng.uniform(float(lo), float(hi))
    g = rng.gauss(0, 1)
    if dom == 'pos':
        v = math.exp(g)
    elif dom == 'nonneg':
        v = abs(g)
    elif dom == 'nz':
        v = (0.05 + abs(g)) * rng.choice([-1, 1])
    else:
        v = g
    if lo is not None and v < lo:
        v = float(lo) + abs(v - lo)
    if hi is not None and v > hi:
        v = float(hi) - abs(v - hi)
    return v


def _num(v):
    try:
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(Fr(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return float(Fr(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        return None
    return None


# ---------------------------------------------------------------- booleans

LABELS = None        # while a figure is drawn: the symbolic values printed in its texts


def label(v):
    LABELS.append(v)
    return 7e6 + len(LABELS) - 1


class SymBool:
    __slots__ = ('b',)
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().branch(self.b)

    def __and__(self, o):
        return mkbool(alg.b_and([self.b, tree(o)])) if _isb(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(alg.b_or([self.b, tree(o)])) if _isb(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(b_xor(self.b, tree(o))) if _isb(o) else NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(alg.b_not(self.b))

    def __eq__(self, o):
        if _isb(o):
            return mkbool(alg.b_not(b_xor(self.b, tree(o))))
        return num(self) == o

    def __ne__(self, o):
        if _isb(o):
            return mkbool(b_xor(self.b, tree(o)))
        return num(self) != o

    def __hash__(self):
        return hash(self.b)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import sym_ufunc
        return sym_ufunc(ufunc, method, inputs, kw)

    def __add__(self, o): return num(self) + o
    __radd__ = __add__
    def __mul__(self, o): return num(self) * o
    __rmul__ = __mul__
    def __sub__(self, o): return num(self) - o
    def __rsub__(self, o): return o - num(self)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def all(self, *a, **k): return self
    any = all
    def item(self): return self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return '<symbolic bool>'
    def __reduce__(self): return (str, (repr(self),))


def _isb(o):
    return isinstance(o, (bool, np.bool_, SymBool))


def tree(o):
    if isinstance(o, SymBool):
        return o.b
    return bool(o)


def b_xor(a, b):
    if isinstance(a, bool):
        return alg.b_not(b) if a else b
    if isinstance(b, bool):
        return alg.b_not(a) if b else a
    return alg.b_or([alg.b_and([a, alg.b_not(b)]), alg.b_and([alg.b_not(a), b])])


def mkbool(b):
    return b if isinstance(b, bool) else SymBool(b)


def num(x):
    return SV(to_poly(x)) if isinstance(x, SymBool) else x


# ---------------------------------------------------------------- scalars

class SV:
    """Symbolic finite real."""
    __slots__ = ('p',)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    # numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import sym_ufunc
        return sym_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import sym_function
        return sym_function(func, args, kwargs)

    # arithmetic
    def __add__(self, o): return op2(e_add, self, o)
    def __radd__(self, o): return op2(e_add, o, self)
    def __sub__(self, o): return op2(e_sub, self, o)
    def __rsub__(self, o): return op2(e_sub, o, self)
    def __mul__(self, o): return op2(e_mul, self, o)
    def __rmul__(self, o): return op2(e_mul, o, self)
    def __truediv__(self, o): return op2(e_div, self, o)
    def __rtruediv__(self, o): return op2(e_div, o, self)
    def __pow__(self, o): return op2(e_pow, self, o)
    def __rpow__(self, o): return op2(e_pow, o, self)
    def __floordiv__(self, o): return op2(e_floordiv, self, o)
    def __rfloordiv__(self, o): return op2(e_floordiv, o, self)
    def __mod__(self, o): return op2(e_mod, self, o)
    def __rmod__(self, o): return op2(e_mod, o, self)
    def __neg__(self): return SV(alg.neg(self.p))
    def __pos__(self): return self
    def __abs__(self): return SV(alg.absv(self.p))

    # comparison
    def __lt__(self, o): return op2(e_lt, self, o)
    def __le__(self, o): return op2(e_le, self, o)
    def __gt__(self, o): return op2(e_gt, self, o)
    def __ge__(self, o): return op2(e_ge, self, o)

    def __eq__(self, o):
        if isinstance(o, (str, bytes, list, tuple, dict)) or o is None:
            return False
        return op2(e_eq, self, o)

    def __ne__(self, o):
        if isinstance(o, (str, bytes, list, tuple, dict)) or o is None:
            return True
        return op2(e_ne, self, o)

    def __hash__(self):
        return hash(self.p)

    # conversion
    def __bool__(self):
        return bool(op2(e_ne, self, 0))

    def __int__(self):
        p = self.p
        if p.is_const():
            c = p.const()
            return math.floor(c) if c >= 0 else math.ceil(c)
        if not all(alg._is_int_mono(m, c) for m, c in p.t.items()):
            if ctx().branch(alg.b_cmp('lt', p)):
                p = alg.neg(alg.floorv(alg.neg(p)))
            else:
                p = alg.floorv(p)
        return ctx().concretize(p)

    def __index__(self):
        if self.p.is_const() and self.p.const().denominator != 1:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self)

    def __float__(self):
        if self.p.is_const():
            return float(self.p.const())
        if LABELS is not None:
            return label(self)
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __floor__(self): return SV(alg.floorv(self.p))
    def __ceil__(self): return SV(alg.neg(alg.floorv(alg.neg(self.p))))
    def __trunc__(self): return int(self)

    def __round__(self, n=None):
        return e_round(self) if not n else _uns('round')

    def is_integer(self):
        return bool(e_eq(SV(alg.floorv(self.p)), self))

    # numpy scalar look-alike
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(float)
    imag = 0.0
    @property
    def real(self): return self
    @property
    def T(self): return self
    def item(self): return self
    def conjugate(self): return self
    conj = conjugate
    def copy(self): return self
    def astype(self, *a, **k):
        from .arr import cast_scalar
        return cast_scalar(self, *a, **k)
    def squeeze(self, *a, **k): return self
    def all(self, *a, **k): return self != 0
    def any(self, *a, **k): return self != 0
    def min(self, *a, **k): return self
    max = mean = sum = min
    def tolist(self): return self
    def __array__(self, dtype=None, copy=None):
        a = np.empty((), dtype=object)
        a[()] = self
        return a
    def reshape(self, *s):
        from .arr import mk
        return mk(self.__array__()).reshape(*s)
    def ravel(self): return self.reshape(1)
    flatten = ravel
    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        return self.reshape(())[k]

    def __repr__(self): return '<' + alg.show(self.p) + '>'
    def __str__(self): return '<symbolic>'
    def __format__(self, spec): return '<symbolic>' if LABELS is None else format(label(self), spec)
    def __reduce__(self): return (str, (repr(self),))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


del SV.__getitem__


def _uns(m):
    raise Unsupported(m)


def op2(f, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if not (_scalar(a) and _scalar(b)):
        return NotImplemented
    return f(a, b)


def _scalar(x):
    return type(x) is SV or isinstance(x, (SymBool, CV, complex)) or is_num(x)


def S(x):
    """Lift a finite number."""
    return x if type(x) is SV else SV(to_poly(x))


def sym(x):
    return type(x) is SV or isinstance(x, SymBool)


def _native(f, *xs):
    with np.errstate(all='ignore'):
        return f(*[np.float64(x) if not isinstance(x, (bool, np.bool_, int, np.integer)) else x
                   for x in xs])


def sgn(x):
    """Concrete sign (-1, 0, 1) of a finite value, forking when necessary."""
    if type(x) is SV:
        s = alg.sign(x.p)
        if s in ('+', '-', '0'):
            return {'+': 1, '-': -1, '0': 0}[s]
        if s == '0+':
            return 0 if zero_branch(x.p) else 1
        if s == '0-':
            return 0 if zero_branch(x.p) else -1
        if ctx().branch(alg.b_cmp('lt', alg.neg(x.p))):
            return 1
        if zero_branch(x.p):
            return 0
        return -1
    return int(x > 0) - int(x < 0)


def zero_branch(p):
    """Is a log argument, divisor or power base exactly zero?  Forks, or under the 'assume' policy
    leaves the measure-zero case outside the bound (counted in the statistics)."""
    c = ctx()
    b = alg.b_cmp('eq', p)
    if isinstance(b, bool):
        return b
    if b in c.known:
        return c.known[b]
    if c.zero == 'assume':
        n = alg.b_not(b)
        c.stats.generic += 1
        c.assume(n)
        c.known[b] = False
        return False
    return c.branch(b)


def is_zero(x):
    if type(x) is SV:
        if alg.nonzero(x.p):
            return False
        return zero_branch(x.p) if not x.p.is_const() else not x.p.t
    return x == 0


# -- elementwise operations on SV | number (incl. nan, inf) ------------------------------------

def _bools(f):
    def g(a, b):
        if isinstance(a, SymBool):
            a = num(a)
        if isinstance(b, SymBool):
            b = num(b)
        if isinstance(a, (CV, complex)) or isinstance(b, (CV, complex)):
            return getattr(_C, f.__name__)(a, b)
        return f(a, b)
    g.__name__ = f.__name__
    return g


@_bools
def e_add(a, b):
    if type(a) is not SV and type(b) is not SV:
        return _native(np.add, a, b)
    if not finite(a):
        return a
    if not finite(b):
        return b
    return SV(alg.add(to_poly(a), to_poly(b)))


@_bools
def e_sub(a, b):
    if type(a) is not SV and type(b) is not SV:
        return _native(np.subtract, a, b)
    if not finite(a):
        return a
    if not finite(b):
        return -b
    return SV(alg.sub(to_poly(a), to_poly(b)))


@_bools
def e_mul(a, b):
    if type(a) is not SV and type(b) is not SV:
        return _native(np.multiply, a, b)
    for x, y in ((a, b), (b, a)):
        if not finite(x):
            if x != x:
                return NAN
            s = sgn(y)
            return NAN if s == 0 else (x if s > 0 else -x)
    p, q = to_poly(a), to_poly(b)
    if len(p.t) > 1 and p.t == q.t:
        if len(p.t) > alg.EXPAND:
            return SV(alg.square_power(p, 2))
        return SV(alg.note_nonneg(alg.mul(p, q)))
    return SV(alg.mul(p, q))


@_bools
def e_div(a, b):
    if type(a) is not SV and type(b) is not SV:
        return _native(np.true_divide, a, b)
    if not finite(a):
        if a != a:
            return NAN
        s = sgn(b)
        return a if s >= 0 else -a
    if not finite(b):
        return NAN if b != b else 0.0
    if type(b) is not SV:
        if b == 0:
            s = sgn(a)
            neg = math.copysign(1, b) < 0
            return NAN if s == 0 else (INF if (s > 0) != neg else -INF)
        return SV(_divp(to_poly(a), to_poly(b)))
    if is_zero(b):
        s = sgn(a)
        return NAN if s == 0 else (INF if s > 0 else -INF)
    return SV(_divp(to_poly(a), b.p))


def _divp(p, q):
    if q.is_const():
        return alg.scale(p, 1 / q.const())
    r = proportional(p, q)
    if r is not None:
        return r
    return alg.mul(p, alg.recip(q))


def proportional(p, q):
    """p / q when p = c * m * q for a monomial m: exact quotient."""
    if len(p.t) != len(q.t) or len(q.t) == 1:
        return None
    if p.t.keys() == q.t.keys():
        m = next(iter(p.t))
        c = p.t[m] / q.t[m]
        if all(p.t[k] == c * q.t[k] for k in p.t):
            return alg.C(c)
    return None


def e_floordiv(a, b):
    if not sym(a) and not sym(b):
        return _native(np.floor_divide, a, b)
    r = e_div(a, b)
    return e_floor(r)


def e_mod(a, b):
    if not sym(a) and not sym(b):
        return _native(np.mod, a, b)
    return e_sub(a, e_mul(b, e_floordiv(a, b)))


def e_fmod(a, b):
    if not sym(a) and not sym(b):
        return _native(np.fmod, a, b)
    q = e_div(a, b)
    t = e_floor(q) if sgn(q) >= 0 else e_ceil(q)
    return e_sub(a, e_mul(b, t))


@_bools
def e_pow(a, b):
    if type(b) is SV and type(a) is not SV and b.p.is_const():
        b = float(b.p.const())
    if type(a) is not SV and type(b) is not SV:
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and b < 0:
            a = float(a)
        return _native(np.power, a, b)
    if type(b) is not SV:
        if b != b:
            return NAN if not (type(a) is not SV and a == 1) else 1.0
        if not finite(b):
            t = abs(S(a))
            one = t - 1
            s = sgn(one)
            if s == 0:
                return 1.0
            return (INF if (s > 0) == (b > 0) else 0.0)
        eb = to_poly(b)
    else:
        eb = b.p
    if type(a) is not SV:
        if a != a:
            return 1.0 if is_zero(SV(eb)) else NAN
        if not finite(a):
            s = sgn(SV(eb))
            if s == 0:
                return 1.0
            if a > 0:
                return INF if s > 0 else 0.0
            raise Unsupported('(-inf) ** symbolic')
        if a == 0:
            s = sgn(SV(eb))
            return 1.0 if s == 0 else (0.0 if s > 0 else INF)
        if a == 1:
            return 1.0
        ea = to_poly(a)
    else:
        ea = a.p
    if eb.is_const():
        e = eb.const()
        if e == 0:
            return 1.0
        if e.denominator == 1:
            n = e.numerator
            if abs(n) > 64:
                if alg.sign(ea) != '+' and not ea.is_const():
                    raise Unsupported('large power')
            if n > 0:
                if len(ea.t) < 2 or n <= 12:
                    if n % 2 == 0 and len(ea.t) > alg.EXPAND:
                        return SV(alg.square_power(ea, n))
                    r = alg.powi(ea, n)
                    return SV(alg.note_nonneg(r) if n % 2 == 0 else r)
                return SV(alg.powr(ea, e))
            if is_zero(SV(ea)):
                return INF
            return SV(alg.recip(alg.powi(ea, -n))) if len(ea.t) == 1 else SV(_negpow(ea, e))
        s = alg.sign(ea)
        if s not in ('+',) and not (s == '0+' and e > 0):
            k = sgn(SV(ea))
            if k < 0:
                return NAN
            if k == 0:
                return 0.0 if e > 0 else INF
        return SV(alg.powr(ea, e))
    # symbolic exponent
    k = sgn(SV(ea))
    if k < 0:
        raise Unsupported('negative base with symbolic exponent')
    if k == 0:
        s = sgn(SV(eb))
        return 1.0 if s == 0 else (0.0 if s > 0 else INF)
    return SV(alg.exp2(alg.mul(eb, alg.log2(ea))))


def _negpow(p, e):
    r = alg.recip(p)
    n = -e.numerator
    return alg.powi(r, n)


def e_float_power(a, b):
    return e_pow(a, b)


def e_neg(a):
    a = num(a)
    return -a


def e_pos(a):
    return num(a)


def e_abs(a):
    a = num(a)
    if isinstance(a, CV):
        return e_sqrt(e_add(e_mul(a.re, a.re), e_mul(a.im, a.im)))
    return abs(a)


def _un(native):
    def d(f):
        def g(a):
            a = num(a)
            if isinstance(a, (CV, complex)):
                return getattr(_C, f.__name__)(a)
            if type(a) is not SV:
                return _native(native, a)
            return f(a)
        g.__name__ = f.__name__
        return g
    return d


@_un(np.sqrt)
def e_sqrt(a):
    s = alg.sign(a.p)
    if s not in ('+', '0+'):
        k = sgn(a)
        if k < 0:
            return NAN
        if k == 0:
            return 0.0
    elif s == '0+' and not a.p.t:
        return 0.0
    return SV(alg.powr(a.p, Fr(1, 2)))


@_un(np.cbrt)
def e_cbrt(a):
    k = sgn(a)
    if k == 0:
        return 0.0
    return SV(alg.powr(a.p, Fr(1, 3))) if k > 0 else -SV(alg.powr(alg.neg(a.p), Fr(1, 3)))


def e_square(a):
    return e_mul(a, a)


@_un(np.reciprocal)
def e_reciprocal(a):
    return e_div(1.0, a)


def _log_args(a):
    if alg.sign(a.p) == '+':
        return None
    k = sgn(a)
    return None if k > 0 else (-INF if k == 0 else NAN)


@_un(np.log2)
def e_log2(a):
    r = _log_args(a)
    return SV(alg.log2(a.p)) if r is None else r


@_un(np.log)
def e_log(a):
    r = _log_args(a)
    return SV(alg.mul(alg.cpoly('ln2'), alg.log2(a.p))) if r is None else r


@_un(np.log10)
def e_log10(a):
    r = _log_args(a)
    return SV(alg.mul(alg.cpoly('lg10', -1), alg.log2(a.p))) if r is None else r


def e_log1p(a):
    return e_log(e_add(1, a))


@_un(np.exp2)
def e_exp2(a):
    return SV(alg.exp2(a.p))


@_un(np.exp)
def e_exp(a):
    return SV(alg.exp2(alg.mul(a.p, alg.cpoly('ln2', -1))))


def e_expm1(a):
    return e_sub(e_exp(a), 1)


@_un(np.floor)
def e_floor(a):
    return SV(alg.floorv(a.p))


@_un(np.ceil)
def e_ceil(a):
    return SV(alg.neg(alg.floorv(alg.neg(a.p))))


@_un(np.trunc)
def e_trunc(a):
    return SV(alg.floorv(a.p)) if sgn(a) >= 0 else SV(alg.neg(alg.floorv(alg.neg(a.p))))


@_un(np.rint)
def e_rint(a):
    return e_round(a)


def e_round(a):
    """Half to even."""
    if type(a) is not SV:
        return _native(np.rint, a)
    p = a.p
    f = alg.floorv(alg.add(p, alg.C(Fr(1, 2))))
    if bool(e_eq(SV(alg.sub(f, p)), Fr(1, 2))):
        n = ctx().concretize(f)
        return float(n if n % 2 == 0 else n - 1)
    return SV(f)


@_un(np.sign)
def e_sign(a):
    return float(sgn(a))


def e_copysign(a, b):
    return e_mul(e_abs(a), 1.0 if sgn(b) >= 0 else -1.0)


def _cmp(op):
    def f(a, b):
        a, b = num(a), num(b)
        if isinstance(a, (CV, complex)) or isinstance(b, (CV, complex)):
            return _C.cmp(op, a, b)
        if type(a) is not SV and type(b) is not SV:
            return bool({'lt': a < b, 'le': a <= b, 'eq': a == b}[op])
        if not finite(a) or not finite(b):
            x = 0.0 if type(a) is SV else a
            y = 0.0 if type(b) is SV else b
            if x != x or y != y:
                return False
            return bool({'lt': x < y, 'le': x <= y, 'eq': False}[op])
        return mkbool(alg.b_cmp(op, alg.sub(to_poly(a), to_poly(b))))
    return f


e_lt = _cmp('lt')
e_le = _cmp('le')
e_eq = _cmp('eq')


def e_gt(a, b):
    return e_lt(b, a)


def e_ge(a, b):
    return e_le(b, a)


def e_ne(a, b):
    a, b = num(a), num(b)
    if not sym(a) and not sym(b) and not isinstance(a, CV) and not isinstance(b, CV):
        return bool(a != b)
    r = e_eq(a, b)
    return (not r) if isinstance(r, bool) else ~r


def e_isnan(a):
    if isinstance(a, CV):
        return e_isnan(a.re) or e_isnan(a.im)
    return (not sym(a)) and bool(a != a)


def e_isinf(a):
    return (not sym(a)) and not isinstance(a, CV) and isinstance(a, (float, np.floating)) and math.isinf(a)


def e_isfinite(a):
    if isinstance(a, CV):
        return e_isfinite(a.re) and e_isfinite(a.im)
    return finite(a)


def _hasnan(xs):
    return any(not sym(x) and x != x for x in xs)


def maxlist(xs):
    """max of a list (nan propagates)."""
    xs = [num(x) for x in xs]
    if _hasnan(xs):
        return NAN
    if not any(type(x) is SV for x in xs):
        return max(np.float64(x) for x in xs)
    if any(not finite(x) and x > 0 for x in xs):
        return INF
    return SV(alg.maxn([to_poly(x) for x in xs if finite(x)]))


def minlist(xs):
    return e_neg(maxlist([e_neg(x) for x in xs]))


def sumlist(xs):
    xs = [num(x) for x in xs]
    if any(isinstance(x, (CV, complex)) for x in xs):
        r = 0
        for x in xs:
            r = e_add(r, x)
        return r
    if not any(type(x) is SV for x in xs):
        r = 0.0 if not xs else xs[0]
        for x in xs[1:]:
            r = _native(np.add, r, x)
        return r
    bad = [x for x in xs if not finite(x)]
    if bad:
        r = bad[0]
        for x in bad[1:]:
            r = r + x
        return r
    ps = [to_poly(x) for x in xs]
    r = alg.addn(ps)
    if len(r.t) > 1 and alg._sign(r) is None and all(alg.sign(p) in ('+', '0+', '0') for p in ps):
        alg.note_nonneg(r)
    return SV(r)


def e_maximum(a, b):
    return maxlist([a, b])


def e_minimum(a, b):
    return minlist([a, b])


def e_fmax(a, b):
    xs = [x for x in (a, b) if sym(x) or x == x]
    return maxlist(xs) if xs else NAN


def e_fmin(a, b):
    xs = [x for x in (a, b) if sym(x) or x == x]
    return minlist(xs) if xs else NAN


def e_where(c, a, b):
    if isinstance(c, SymBool):
        a, b = num(a), num(b)
        if isinstance(a, CV) or isinstance(b, CV):
            a, b = CV.of(a), CV.of(b)
            return CV(e_where(c, a.re, b.re), e_where(c, a.im, b.im))
        if not finite(a) or not finite(b):
            return a if bool(c) else b
        return SV(alg.ite(c.b, to_poly(a), to_poly(b)))
    if type(c) is SV:
        c = bool(c)
    return a if c else b


def truth(x):
    """bool or SymBool of a scalar."""
    if isinstance(x, (SymBool, bool)):
        return x
    if type(x) is SV:
        return x != 0
    return bool(x)


def e_and(a, b):
    a, b = truth(a), truth(b)
    return mkbool(alg.b_and([tree(a), tree(b)]))


def e_or(a, b):
    a, b = truth(a), truth(b)
    return mkbool(alg.b_or([tree(a), tree(b)]))


def e_xor(a, b):
    return mkbool(b_xor(tree(truth(a)), tree(truth(b))))


def e_not(a):
    return mkbool(alg.b_not(tree(truth(a))))


def e_invert(a):
    if _isb(a):
        return e_not(a)
    if type(a) is SV:
        return -a - 1
    return ~a


def e_band(a, b):
    return e_and(a, b) if _isb(a) or _isb(b) else a & b


def e_bor(a, b):
    return e_or(a, b) if _isb(a) or _isb(b) else a | b


def e_bxor(a, b):
    return e_xor(a, b) if _isb(a) or _isb(b) else a ^ b


def e_ldexp(a, b):
    return e_mul(a, e_pow(2, b))


def e_hypot(a, b):
    return e_sqrt(e_add(e_mul(a, a), e_mul(b, b)))


# ---------------------------------------------------------------- complex

class CV:
    """Complex number with symbolic parts."""
    __slots__ = ('re', 'im')
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, CV):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return CV(float(x.real), float(x.imag))
        return CV(num(x), 0.0)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import sym_ufunc
        return sym_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import sym_function
        return sym_function(func, args, kwargs)

    def __add__(self, o): return op2(_C.e_add, self, o)
    def __radd__(self, o): return op2(_C.e_add, o, self)
    def __sub__(self, o): return op2(_C.e_sub, self, o)
    def __rsub__(self, o): return op2(_C.e_sub, o, self)
    def __mul__(self, o): return op2(_C.e_mul, self, o)
    def __rmul__(self, o): return op2(_C.e_mul, o, self)
    def __truediv__(self, o): return op2(_C.e_div, self, o)
    def __rtruediv__(self, o): return op2(_C.e_div, o, self)
    def __pow__(self, o): return op2(_C.e_pow, self, o)
    def __neg__(self): return CV(e_neg(self.re), e_neg(self.im))
    def __abs__(self): return e_abs(self)
    def __eq__(self, o): return op2(lambda a, b: _C.cmp('eq', a, b), self, o)
    def __ne__(self, o): return op2(lambda a, b: e_not(_C.cmp('eq', a, b)), self, o)
    def __hash__(self): return hash((self.re, self.im))
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def conjugate(self): return CV(self.re, e_neg(self.im))
    conj = conjugate
    ndim = 0
    shape = ()
    size = 1
    def __repr__(self): return f'<{self.re!r}+{self.im!r}j>'


class _C:
    @staticmethod
    def e_add(a, b):
        a, b = CV.of(a), CV.of(b)
        return CV(e_add(a.re, b.re), e_add(a.im, b.im))

    @staticmethod
    def e_sub(a, b):
        a, b = CV.of(a), CV.of(b)
        return CV(e_sub(a.re, b.re), e_sub(a.im, b.im))

    @staticmethod
    def e_mul(a, b):
        a, b = CV.of(a), CV.of(b)
        return CV(e_sub(e_mul(a.re, b.re), e_mul(a.im, b.im)),
                  e_add(e_mul(a.re, b.im), e_mul(a.im, b.re)))

    @staticmethod
    def e_div(a, b):
        a, b = CV.of(a), CV.of(b)
        if not sym(b.im) and b.im == 0:
            return CV(e_div(a.re, b.re), e_div(a.im, b.re))
        d = e_add(e_mul(b.re, b.re), e_mul(b.im, b.im))
        n = _C.e_mul(a, b.conjugate())
        return CV(e_div(n.re, d), e_div(n.im, d))

    @staticmethod
    def e_pow(a, b):
        if not sym(b) and not isinstance(b, (CV, complex)):
            b = to_poly(b).const()
            if b.denominator == 1 and b >= 0:
                r = CV(1.0, 0.0)
                for _ in range(int(b)):
                    r = _C.e_mul(r, a)
                return r
            if b == Fr(1, 2):
                return _C.e_sqrt(a)
        raise Unsupported('complex power')

    @staticmethod
    def e_sqrt(a):
        a = CV.of(a)
        im = a.im
        if type(im) is SV and im.p.is_const():
            im = float(im.p.const())
        if not sym(im) and im == 0:
            s = sgn(a.re)
            if s >= 0:
                return CV(e_sqrt(a.re), 0.0)
            return CV(0.0, e_sqrt(e_neg(a.re)))
        if type(im) is SV and ctx().branch(alg.b_cmp('eq', im.p)):
            return _C.e_sqrt(CV(a.re, 0.0))
        re, im = to_poly(a.re), to_poly(a.im)
        if re.is_const() and im.is_const():
            r = complex(float(re.const()), float(im.const())) ** 0.5
            return CV(r.real, r.imag)
        if len(re.t) == 1 and list(re.t) == list(im.t):
            (m, k), = re.t.items()
            mono = SV(alg.Poly({m: Fr(1)}))
            if sgn(mono) > 0:
                r = complex(float(k), float(im.t[m])) ** 0.5
                s = e_sqrt(mono)
                return CV(e_mul(r.real, s), e_mul(r.imag, s))
        raise Unsupported('complex square root')

    @staticmethod
    def e_exp(a):
        raise Unsupported('complex exp')

    @staticmethod
    def cmp(op, a, b):
        a, b = CV.of(a), CV.of(b)
        if op == 'eq':
            return e_and(e_eq(a.re, b.re), e_eq(a.im, b.im))
        raise Unsupported('complex ordering')


def e_real(a):
    if isinstance(a, CV):
        return a.re
    return a.real if isinstance(a, (complex, np.complexfloating)) else num(a)


def e_imag(a):
    if isinstance(a, CV):
        return a.im
    return a.imag if isinstance(a, (complex, np.complexfloating)) else 0.0


def e_conj(a):
    return a.conjugate() if isinstance(a, (CV, complex)) else a


# ---------------------------------------------------------------- exploration

def explore(fn, stats, deadline, log_grid=None, timeout=20.0, max_paths=2000, zero='fork'):
    """Runs fn(ctx) once per feasible path."""
    global CTX
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        if n >= max_paths:
            raise Unsupported(f'more than {max_paths} paths')
        n += 1
        alg.reset()
        c = Ctx(prefix, stats, deadline, log_grid, timeout, zero=zero)
        CTX = c
        try:
            try:
                fn(c)
                stats.paths += 1
            except PathAbort:
                pass
        finally:
            CTX = None
        work.extend(reversed(c.pending))
