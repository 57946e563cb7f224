"""Dual-mode harness environment.

The same harness function runs symbolically (the solver decides every obligation for all inputs of
the case) and concretely on the real, unmodified package with real numpy (replay of counterexamples
and validation of the encoding).
"""
import contextlib
import copy
import importlib
import itertools
import math
import os
import random
import re
import sys
import time
import traceback
import warnings

import numpy as np
import z3

from . import alg, arr, core, loader
from .alg import Fr, Unsupported
from .core import CV, SV, SymBool, Budget, PathAbort

NUMPY_NOISE = ('invalid value', 'divide by zero', 'All-NaN', 'Mean of empty', 'overflow',
               'underflow', 'Degrees of freedom', 'Casting complex', 'tight_layout', 'Matplotlib',
               'FigureCanvas', 'More than 20 figures', 'Attempting to set identical', 'No artists',
               'Starting a Matplotlib', 'noninteractive', 'No data for colormapping',
               'elementwise comparison', 'legend', 'All-NaN', 'nperseg')


class Failure(Exception):
    """A property violated in a concrete run."""


class Skip(Exception):
    """An assumption of the harness is not met by this concrete input."""


class HarnessStop(Exception):
    """The rest of this path is meaningless (the failure is recorded)."""


_REAL = {}


def real_mod(name):
    full = 'pymultifracs' + ('.' + name if name else '')
    if loader.REPO not in sys.path[:1]:
        sys.path.insert(0, loader.REPO)
    m = importlib.import_module(full)
    f = os.path.realpath(m.__file__)
    if not f.startswith(os.path.realpath(loader.REPO) + os.sep):
        raise RuntimeError(f'{full} loaded from {f}, not from {loader.REPO}')
    return m


class Noise:
    """np.random stand-in of the concrete mode: draws come from named values."""

    def __init__(self, env):
        self.env = env
        self.n = 0
        self.override = None

    def one(self):
        self.n += 1
        if self.override is not None:
            return self.override.get(self.n, 0.0)
        return self.env.value(f'w{self.n}', 'real', {'noise': True})

    def draw(self, shape):
        if shape is None or shape == ():
            return self.one()
        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        a = np.empty(shape)
        for i in np.ndindex(*shape):
            a[i] = self.one()
        return a

    def randn(self, *shape):
        return self.draw(tuple(int(s) for s in shape))

    def standard_normal(self, size=None, **k):
        return self.draw(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.draw(size)

    def seed(self, *a, **k):
        pass

    def default_rng(self, *a, **k):
        return self

    def RandomState(self, *a, **k):
        return self


@contextlib.contextmanager
def patched_random(noise):
    names = ['randn', 'standard_normal', 'normal', 'seed', 'default_rng', 'RandomState']
    old = {n: getattr(np.random, n) for n in names}
    for n in names:
        setattr(np.random, n, getattr(noise, n))
    try:
        yield
    finally:
        for n, v in old.items():
            setattr(np.random, n, v)


class Env:
    def __init__(self, symbolic, values=None, seed=0, ctx=None):
        self.sym = symbolic
        self.ctx = ctx
        self.values = dict(values or {})
        self.used = {}
        self.rng = random.Random(seed)
        self.scale = [1.0, 1.0, 3.0, 0.2][seed % 4]
        self.draws = []
        self.records = []          # actual values handed to eq/check, in order
        self.undo = []
        self.candidates = []       # (msg, model values or None)
        self.undecided = []
        self.notes = []
        if symbolic:
            self.pkg = loader.Package(plotlog=self.draws)
            self.np = self.pkg.libs['numpy']
        else:
            self.np = np
            self.noise = Noise(self)

    # ---- code under test
    def mod(self, name):
        return self.pkg.mod(name) if self.sym else real_mod(name)

    def stub(self, module, name, value):
        m = self.mod(module)
        old = m.__dict__.get(name)
        m.__dict__[name] = value
        if not self.sym:
            self.undo.append((m, name, old))

    def restore(self):
        for m, n, v in reversed(self.undo):
            m.__dict__[n] = v
        self.undo = []

    # ---- inputs
    def value(self, name, dom, meta=None, lo=None, hi=None, special=()):
        meta = meta or {}
        v = self.values.get(name, self.used.get(name))
        if v is None:
            r = self.rng
            if special and r.random() < 0.5:
                v = r.choice(list(special))
            elif dom == 'int':
                v = r.randint(int(lo), int(hi))
            elif lo is not None and hi is not None:
                v = r.uniform(float(lo), float(hi))
                if r.random() < 0.1:
                    v = r.choice([float(lo), float(hi)])
            elif dom == 'pos':
                v = math.exp(r.gauss(0, 1)) * self.scale + 1e-3
            elif dom == 'nonneg':
                v = abs(r.gauss(0, 1)) * self.scale
            elif dom == 'nz':
                v = (0.05 + abs(r.gauss(0, 1)) * self.scale) * r.choice([-1, 1])
            else:
                v = r.gauss(0, 1) * self.scale
            if self.mag != 1 and lo is None and hi is None and not special and not meta and dom != 'int':
                v *= self.mag
            if lo is not None and v < lo:
                v = float(lo) + abs(v - lo)
        if dom == 'int':
            v = int(v)
        self.used[name] = v
        return v

    def real(self, name, dom='real', lo=None, hi=None, special=()):
        """A real (or, dom='int', an integer) input."""
        if not self.sym:
            v = self.value(name, dom, None, lo, hi, special)
            self._range(v, dom, lo, hi)
            return v
        flags = {'pos': {'pos': True}, 'nonneg': {'nonneg': True}, 'nz': {'nz': True},
                 'int': {'isint': True}}.get(dom, {})
        if dom == 'real' and lo is not None and lo > 0:
            flags = {'pos': True}
        if dom == 'int' and lo is not None and lo > 0:
            flags = {'isint': True, 'pos': True}
        p = alg.var(name, **flags)
        self.ctx.vars.append((name, p, {'dom': dom, 'lo': lo, 'hi': hi}))
        x = SV(p)
        if lo is not None:
            self.ctx.assume(core.tree(x >= lo) if isinstance(x >= lo, SymBool) else bool(x >= lo))
        if hi is not None:
            self.ctx.assume(core.tree(x <= hi))
        return x

    def _range(self, v, dom, lo, hi):
        if dom == 'pos' and not v > 0 or dom == 'nonneg' and v < 0 or dom == 'nz' and v == 0:
            raise Skip(f'{dom}')
        if lo is not None and v < lo - 1e-12 or hi is not None and v > hi + 1e-12:
            raise Skip('range')

    def array(self, name, shape, dom='real', nan=(), live=None, **k):
        """An array of symbolic reals; entries listed in `nan` are missing.  With `live`, only the
        rows it lists are symbolic and the others hold fixed numbers."""
        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        nan = {(i,) if np.isscalar(i) else tuple(i) for i in nan}
        a = np.empty(shape, dtype=object if self.sym else float)
        for i in np.ndindex(*shape):
            a[i] = math.nan if i in nan else \
                fixed_number(i, dom) if live is not None and i[0] not in live else \
                self.real(name + '_' + '_'.join(str(x) for x in i), dom, **k)
        return a.view(arr.SymArray) if self.sym else a

    def arr(self, rows):
        """An array built from (nested lists of) values of either mode."""
        if self.sym:
            return arr.mk(rows)
        return np.array(rows, dtype=float)

    # ---- scalar operations for reference code
    def _f(self, name, x, f):
        if isinstance(x, (SV, CV, SymBool)):
            return getattr(core, name)(x)
        return f(x)

    def log2(self, x):
        return self._f('e_log2', x, lambda v: math.log2(v) if v > 0 else (-math.inf if v == 0 else math.nan))

    def log(self, x):
        return self._f('e_log', x, lambda v: math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan))

    def exp(self, x):
        return self._f('e_exp', x, math.exp)

    def sqrt(self, x):
        return self._f('e_sqrt', x, lambda v: math.sqrt(v) if v >= 0 else math.nan)

    def abs(self, x):
        return self._f('e_abs', x, abs)

    def pw(self, x, e):
        if isinstance(x, SV) or isinstance(e, SV):
            return core.e_pow(x, e)
        try:
            return float(x) ** e
        except ZeroDivisionError:
            return math.inf

    def max(self, xs):
        xs = list(xs)
        if any(isinstance(x, SV) for x in xs):
            return core.maxlist(xs)
        return max(xs)

    def isnan(self, x):
        return not isinstance(x, (SV, SymBool, CV)) and math.isnan(x)

    def lt(self, a, b):
        return a < b

    def num(self, x):
        return float(x) if not isinstance(x, (SV, CV)) else x

    # ---- running code
    def assume(self, cond):
        if self.sym:
            self.ctx.assume(core.tree(cond) if isinstance(cond, SymBool) else bool(cond))
        elif not cond:
            raise Skip('assumption')

    def decide(self, cond):
        """Truth of a condition (symbolically: forks)."""
        return bool(cond)

    def warned(self, fn):
        """(result of fn(), messages of the warnings the package issued)."""
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            r = fn()
        out = []
        for w in rec:
            msg = str(w.message)
            if issubclass(w.category, UserWarning) and not any(n in msg for n in NUMPY_NOISE):
                out.append(msg)
            elif not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning)) \
                    and not any(n in msg for n in NUMPY_NOISE):
                out.append(msg)
        return r, out

    def raises(self, exc, fn, msg):
        """fn() must raise exc."""
        try:
            fn()
        except exc:
            self.records.append(('flag', True))
            return
        except (Unsupported, PathAbort, Budget, Skip, HarnessStop):
            raise
        except Exception as e:
            self.fail(f'{msg}: {type(e).__name__} ({e}) instead of {self._excname(exc)}')
            return
        self.fail(f'{msg}: no {self._excname(exc)}')

    @staticmethod
    def _excname(exc):
        return '/'.join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__

    def fail(self, msg):
        """The property is violated on every input of this path."""
        if not self.sym:
            raise Failure(msg)
        self.core_stats().obligations += 1
        r, m = self.ctx.solve([], want_model=True, timeout=10)
        if r == 'unsat':
            return
        self.candidates.append((msg, self.ctx.model_inputs(m) if m is not None else None))

    def core_stats(self):
        return self.ctx.stats

    # ---- obligations
    def check(self, cond, msg):
        if not self.sym:
            self.records.append(('flag', bool(cond)))
            if not bool(cond):
                raise Failure(msg)
            return
        st = self.core_stats()
        st.obligations += 1
        if isinstance(cond, arr.SymArray):
            cond = cond.all()
        if not isinstance(cond, SymBool):
            self.records.append(('flag', bool(cond)))
            if not bool(cond):
                self.fail(msg)
            return
        self.records.append(('bool', core.tree(cond)))
        c = self.ctx
        g = alg.b_not(core.tree(cond))
        for lem in (False, True):
            r, m = c.solve([c.tr.bool(g)], want_model=True, lemmas=lem)
            if r == 'unsat':
                return
            if r == 'sat' and not lem:
                sat = m
        if r == 'sat':
            self.candidates.append((msg, c.model_inputs(m)))
        else:
            self.undecided.append(f'{msg}: solver {r}')

    def flat(self, x):
        """(shape, flat list of scalars) or ('none', [])."""
        if x is None:
            return None, []
        if isinstance(x, (list, tuple, np.ndarray)):
            if self.sym:
                o = arr.obj(x)
                return o.shape, list(o.reshape(-1))
            o = np.asarray(x)
            if o.dtype == object:
                o = o.astype(complex if any(isinstance(v, complex) for v in o.reshape(-1)) else float)
            return o.shape, list(o.reshape(-1))
        return (), [x]

    def eq(self, actual, expected, msg, tol=None, atol=0.0):
        """actual == expected, for all inputs of this path (shapes, missing entries and values).
        `tol`, `atol`: tolerance of the binary64 runs only."""
        if self.sym:
            self.core_stats().obligations += 1
        try:
            sa, fa = self.flat(actual)
            sb, fb = self.flat(expected)
        except (TypeError, ValueError) as e:
            self.fail(f'{msg}: not comparable ({e})')
            return
        self.records.append(('shape', sa))
        if sa != sb:
            self.fail(f'{msg}: shape {sa} instead of {sb}')
            return
        if self.sym:
            self._eq_sym(fa, fb, sa, msg)
        else:
            self._eq_num(fa, fb, sa, msg, tol, atol)

    def _eq_num(self, fa, fb, shape, msg, tol, atol):
        fin = [abs(v) for v in itertools.chain(fa, fb) if np.isfinite(v)]
        scale = max(fin, default=0.0)
        rt = tol or 1e-6
        self.records.append(('num', [complex(v) if isinstance(v, (complex, np.complexfloating))
                                     else float(v) for v in fa], scale))
        for n, (a, b) in enumerate(zip(fa, fb)):
            ok = (np.isnan(a) and np.isnan(b)) or a == b or \
                (np.isfinite(a) and np.isfinite(b)
                 and abs(a - b) <= rt * max(abs(a), abs(b)) + 1e-3 * rt * scale + 1e-12 + atol)
            if not ok:
                i = np.unravel_index(n, shape) if shape else ()
                raise Failure(f'{msg}{[int(k) for k in i]}: {a} instead of {b}')

    def _eq_sym(self, fa, fb, shape, msg):
        c, st = self.ctx, self.core_stats()
        self.records.append(('sym', list(fa)))
        ds = []
        for n, (a, b) in enumerate(zip(fa, fb)):
            where = f'{msg}{[int(k) for k in (np.unravel_index(n, shape) if shape else ())]}'
            cs = [(a, b)]
            if isinstance(a, (CV, complex)) or isinstance(b, (CV, complex)):
                a, b = CV.of(a), CV.of(b)
                cs = [(a.re, b.re), (a.im, b.im)]
            for x, y in cs:
                st.scalars += 1
                fx, fy = core.finite(x), core.finite(y)
                if not fx or not fy:
                    if fx or fy or not (x == y or (math.isnan(x) and math.isnan(y))):
                        self.fail(f'{where}: {_show(x)} instead of {_show(y)}')
                        return
                    st.identical += 1
                    continue
                px, py = core.to_poly(x), core.to_poly(y)
                d = alg.sub(px, py)
                if d.t:
                    d = prune(d, px, py)
                if d.t:
                    d = prune(alg.cancel(d, raw=True), px, py)
                if d.t:
                    d = alg.sub(alg.expand(px), alg.expand(py))
                    d = prune(d, px, py)
                    if d.t:
                        d = prune(alg.cancel(d), px, py)
                if not d.t:
                    st.identical += 1
                    # small terms still go to the solver, un-normalised
                    if len(px.t) + len(py.t) <= 40 and len(ds) < 400:
                        ds.append((where, px, py, None))
                else:
                    ds.append((where, px, py, d))
        pins = alg.pins(c.pc)
        if pins:
            # variables this path fixes (q == 1, ...) are replaced by their values
            sb = alg.Subst(pins)
            for i, (where, px, py, d) in enumerate(ds):
                if d is not None:
                    try:
                        px, py = sb.poly(px), sb.poly(py)
                        d = alg.sub(alg.expand(px), alg.expand(py))
                        d = prune(d, px, py) if d.t else d
                        d = prune(alg.cancel(d), px, py) if d.t else d
                    except (Unsupported, ZeroDivisionError):
                        continue
                    ds[i] = (where, px, py, d if d.t else None)
        hard = [x for x in ds if x[3] is not None]
        easy = [x for x in ds if x[3] is None]
        if easy:
            try:
                fs = [c.tr.poly(a) != c.tr.poly(b) for _, a, b, _ in easy if a is not b and a.t != b.t]
                fs = fs or [c.tr.poly(easy[0][1]) != c.tr.poly(easy[0][2])]
                s = z3.Solver()
                s.set('timeout', 5000)
                # identities up to the rounding of float constants were settled by prune
                t = time.time()
                s.add(z3.Or(*[f for f in fs][:50]))
                exact = all(a.t == b.t for _, a, b, _ in easy)
                if exact:
                    r = str(s.check())
                    st.queries += 1
                    st.time += time.time() - t
                    if r == 'unsat':
                        st.unsat += 1
                    else:
                        self.undecided.append(f'{msg}: solver {r} on an identity')
            except Unsupported:
                pass
        if not hard:
            return
        for ev in c.points():
            for where, px, py, d in hard:
                try:
                    a, b = ev.poly(px), ev.poly(py)
                except (alg.EvalError, KeyError, OverflowError, ValueError, ZeroDivisionError):
                    continue
                if abs(a - b) > 1e-5 * max(abs(a), abs(b)) + 1e-9:
                    pin = [c.tr.poly(p) == z3.RealVal(repr(ev.env[n])) for n, p, _ in c.vars]
                    r, m = c.solve(pin + [c.tr.poly(d) != 0], want_model=True, timeout=3)
                    if r != 'unsat':
                        self.candidates.append((f'{where} differs from its definition',
                                                dict(ev.env)))
                        return
        hard = [x for x in hard if not self._cleared(*x[1:3])]
        if not hard:
            return
        fs = [c.tr.poly(d) != 0 for _, _, _, d in hard]
        r, m = c.solve([z3.Or(*fs)], want_model=True)
        if r == 'unsat':
            return
        if r == 'sat':
            self.candidates.append((f'{msg} differs from its definition', c.model_inputs(m)))
            r2 = c.solve([z3.Or(*fs)], lemmas=True)
            if r2 == 'unsat':
                st.refined += 1
                self.candidates.pop()
            return
        for (where, _, _, d), f in zip(hard[:40], fs):
            r, m = c.solve([f], want_model=True, lemmas=True, timeout=5)
            if r == 'sat':
                self.candidates.append((f'{where} differs from its definition', c.model_inputs(m)))
                return
            if r != 'unsat':
                self.undecided.append(f'{where}: solver {r}')
                return
        if len(hard) > 40:
            self.undecided.append(f'{msg}: solver {r}')

    def _cleared(self, px, py):
        """The two sides coincide once multiplied by everything they divide by (decided by z3)."""
        c, st = self.ctx, self.core_stats()
        try:
            r = alg.clear([alg.expand(px), alg.expand(py)])
            if r is None:
                return False
            d = alg.sub(*r)
            if d.t and prune(d, *r).t:
                return False
            f = c.tr.poly(r[0]) != c.tr.poly(r[0] if d.t else r[1])
        except (Unsupported, ZeroDivisionError):
            return False
        s = z3.Solver()
        s.set('timeout', 5000)
        t = time.time()
        s.add(f)
        ok = str(s.check()) == 'unsat'
        st.queries += 1
        st.time += time.time() - t
        st.unsat += ok
        return ok

    # ---- linear dependence on noise
    def linear_map(self, fn):
        """For y = fn() linear in the random draws: list over draws of arrays d y / d draw, and the
        part independent of the noise; the solver-side proof of linearity is the polynomial form."""
        if self.sym:
            c = self.ctx
            n0 = len(c.vars)
            y = arr.obj(fn())
            new = [(n, p) for n, p, meta in c.vars[n0:] if meta.get('noise')]
            ids = {next(iter(p.t))[0][0]: k for k, (n, p) in enumerate(new)}
            cols = [np.empty(y.shape, dtype=object) for _ in new]
            base = np.empty(y.shape, dtype=object)
            for i in np.ndindex(*y.shape):
                p = core.to_poly(y[i])
                parts = {}
                for m, k in alg.expand(p).t.items():
                    w = [a for a, e in m if a in ids]
                    if len(w) > 1 or any(e != 1 for a, e in m if a in ids):
                        self.fail('the simulated process is not linear in its noise')
                        raise HarnessStop()
                    for a, e in m:
                        if a not in ids and alg.ATOMS[a].kind not in ('var', 'const', 'num', 'log2num') \
                                and any(self._mentions(a, v) for v in ids):
                            self.fail('the simulated process is not linear in its noise')
                            raise HarnessStop()
                    key = w[0] if w else None
                    rest = tuple((a, e) for a, e in m if a != key)
                    parts.setdefault(key, {})[rest] = k
                for a, k in ids.items():
                    cols[k][i] = SV(alg.Poly(parts[a])) if a in parts else 0.0
                base[i] = SV(alg.Poly(parts[None])) if None in parts else 0.0
            self.records.append(('flag', True))
            return [x.view(arr.SymArray) for x in cols], base.view(arr.SymArray)
        nz = self.noise
        nz.n, nz.override = 0, {}
        base = np.array(fn(), dtype=float)
        n = nz.n
        cols = []
        for k in range(1, n + 1):
            nz.n, nz.override = 0, {k: 1.0}
            cols.append(np.array(fn(), dtype=float) - base)
        nz.override = None
        self.records.append(('flag', True))
        return cols, base

    def _mentions(self, aid, v, seen=None):
        return mentions(aid, v)

    def new_noise(self, fn):
        """(result, list of the standard normal draws consumed by fn)."""
        if self.sym:
            n0 = len(self.ctx.vars)
            r = fn()
            return r, [SV(p) for n, p, meta in self.ctx.vars[n0:] if meta.get('noise')]
        n0 = self.noise.n
        r = fn()
        return r, [self.used[f'w{k}'] for k in range(n0 + 1, self.noise.n + 1)]

    def replay_noise(self, draws, fn):
        """Run fn with the given values as its random draws."""
        if self.sym:
            old = loader.FEED
            loader.FEED = iter(draws)
            try:
                return fn()
            finally:
                loader.FEED = old
        nz = self.noise
        old = nz.n, nz.override
        nz.n, nz.override = 0, {k + 1: v for k, v in enumerate(draws)}
        try:
            return fn()
        finally:
            nz.n, nz.override = old

    # ---- figures
    def figure(self, fn):
        """Runs drawing code: [(panel, x, y, keywords)] for every line drawn, in order."""
        n0 = len(self.draws)
        if self.sym:
            core.LABELS = []
        try:
            fn()
        finally:
            self.labels, core.LABELS = core.LABELS, None
        out = []
        for name, a, k, owner in self.draws[n0:]:
            if not name.endswith('.plot'):
                continue
            xy = [v for v in a if not isinstance(v, str)]
            if len(xy) == 1:
                xy = [list(range(len(xy[0])))] + xy
            for i in range(0, len(xy), 2):
                out.append((owner, self.points(xy[i]), self.points(xy[i + 1]), k))
        return out

    def points(self, v):
        if isinstance(v, np.ndarray):
            return list(v.reshape(-1)) if v.ndim < 2 or 1 in v.shape else [list(r) for r in v]
        return [self.points(x)[0] if isinstance(x, np.ndarray) and x.size == 1 else x for x in v]

    def label(self, text, want, msg, digits=2):
        """The (only) number printed in a text is `want`."""
        m = re.findall(r'-?\d+\.\d+', text)
        self.check(len(m) == 1, f'{msg}: {text!r}')
        v = float(m[0])
        if self.sym:
            i = round(v - 7e6)
            if 0 <= i < len(self.labels):
                v = self.labels[i]
        n0 = len(self.records)
        if self.sym and isinstance(v, SV):
            self.eq(v, want, msg)
        elif self.sym and isinstance(want, SV):
            self.eq(float(v), want, msg)
        else:
            self.check(abs(v - float(want)) <= 0.51 * 10.0 ** -digits, msg)
        del self.records[n0:]     # a rounded number: not compared between the two runs

    # ---- mutation
    def snapshot(self, x):
        """A structural copy of arrays / containers / objects."""
        if isinstance(x, np.ndarray):
            return np.array(x, copy=True, subok=True)
        if isinstance(x, dict):
            return {k: self.snapshot(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.snapshot(v) for v in x]
        if hasattr(x, '__dict__') and not isinstance(x, (SV, type)) and not callable(x):
            return {'__dict__': {k: self.snapshot(v) for k, v in vars(x).items()}}
        return x

    def unchanged(self, x, snap, msg):
        if isinstance(x, np.ndarray):
            self.eq(x, snap, msg, tol=1e-15)
        elif isinstance(x, dict):
            self.check(list(x) == list(snap), f'{msg}: keys changed')
            for k in x:
                if k in snap:
                    self.unchanged(x[k], snap[k], f'{msg}[{k}]')
        elif isinstance(x, (list, tuple)):
            self.check(len(x) == len(snap), f'{msg}: length changed')
            for i, (a, b) in enumerate(zip(x, snap)):
                self.unchanged(a, b, f'{msg}[{i}]')
        elif isinstance(snap, dict) and '__dict__' in snap:
            now = vars(x)          # attributes added meanwhile (a memo, say) do not count
            self.unchanged({k: now[k] for k in snap['__dict__'] if k in now}, snap['__dict__'], msg)
        elif isinstance(x, (int, float, SV, np.number)) and not isinstance(x, bool):
            self.eq(x, snap, msg)
        elif x is None or isinstance(x, (str, bool)):
            self.check(x == snap, f'{msg} changed')


def _show(x):
    return 'a number' if isinstance(x, (SV, CV)) else str(x)


_MENT = {}


def mentions(aid, v):
    """Does atom aid depend on variable atom v?"""
    return v in deps(aid)


def deps(aid):
    key = (aid, id(alg.ATOMS))
    r = _MENT.get(key)
    if r is not None and r[0] is alg.ATOMS[aid]:
        return r[1]
    a = alg.ATOMS[aid]
    s = {aid}

    def walk(d):
        if isinstance(d, alg.Poly):
            for m in d.t:
                for b, e in m:
                    s.update(deps(b))
        elif isinstance(d, tuple):
            for x in d:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) \
                        and isinstance(x[1], (int, Fr)) and x[0] < len(alg.ATOMS):
                    s.update(deps(x[0]) if x[0] != aid else ())
                else:
                    walk(x)
    if a.kind not in ('var', 'const', 'num', 'log2num'):
        walk(a.data)
    _MENT[key] = (a, s)
    return s


def fixed_number(i, dom):
    """An arbitrary but reproducible number for entry i."""
    h = 17
    for k in i:
        h = (h * 1103 + 12345 * k + 7) % 10007
    v = (h % 2003 - 1001) / 400 + 0.00037
    return abs(v) + 0.01 if dom != 'real' else v


def prune(d, a, b, rel=1e-10):
    """Drop terms of d whose numeric coefficient is rounding noise relative to a and b."""
    big = 0.0
    for p in (a, b):
        big = max([big] + [abs(v) for v in alg.numeric(p)[0].values()])
    acc, orig = alg.numeric(d)
    out = {}
    for r, v in acc.items():
        if abs(v) > rel * max(big, 1e-300) and (r or abs(v) > 1e-13):
            out.update(orig[r])
    return alg.Poly(out) if len(out) != len(d.t) else d


# ---------------------------------------------------------------- running a case

class Case:
    def __init__(self, name, fn, zero='assume', log_grid=None, max_paths=400, timeout=15.0,
                 runs=4, seconds=None, bound='', wide=False):
        self.name, self.fn = name, fn
        self.zero, self.log_grid, self.max_paths, self.timeout = zero, log_grid, max_paths, timeout
        self.runs = runs           # concrete validation runs
        self.seconds = seconds
        self.bound = bound
        self.wide = wide           # counterexamples are also looked for at very small and large magnitudes


PLOT = {'on': False, 'log': None}


def _patch_plot():
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.axes import Axes
    if getattr(Axes.plot, '_recorded', False):
        return
    real = Axes.plot

    def plot(self, *a, **k):
        if PLOT['log'] is not None:
            PLOT['log'].append(('ax.plot', a, k, id(self)))
        return real(self, *a, **k)
    plot._recorded = True
    Axes.plot = plot


def run_concrete(case, values, seed, mag=1):
    """(status, message, env): status in pass, fail, skip."""
    E = Env(False, values, seed)
    E.mag = mag
    _patch_plot()
    PLOT['log'] = E.draws
    try:
        with patched_random(E.noise), np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                case.fn(E)
                return 'pass', '', E
            except Failure as e:
                return 'fail', str(e), E
            except Skip as e:
                return 'skip', str(e), E
            except HarnessStop:
                return 'skip', '', E
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = [f for f in tb if f.filename.startswith(loader.REPO)]
                at = f' at {os.path.relpath(inrepo[-1].filename, loader.REPO)}:{inrepo[-1].name}' \
                    if inrepo else f' (outside the repository: {tb[-1].filename}:{tb[-1].lineno})'
                return 'fail', f'{type(e).__name__}: {e}{at}', E
    finally:
        PLOT['log'] = None
        E.restore()
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')


def compare_records(recs, E, pc, values):
    """Compares the recorded symbolic observations with those of a concrete run: None (not
    comparable), or a list of mismatch descriptions."""
    ev = alg.Eval(values)
    try:
        for b in pc:
            if not ev.bool(b):
                return None
    except (alg.EvalError, KeyError, OverflowError, ValueError, ZeroDivisionError):
        return None
    bad = []
    a = [r for r in recs if r[0] in ('sym', 'shape')]
    b = [r for r in E.records if r[0] in ('num', 'shape')]
    n = min(len(a), len(b))
    for x, y in zip(a[:n], b[:n]):
        if x[0] == 'shape':
            if y[0] == 'shape' and x[1] != y[1]:
                bad.append(f'shape {x[1]} against {y[1]}')
            continue
        if y[0] != 'num' or len(x[1]) != len(y[1]):
            bad.append('different observations')
            continue
        scale = max([abs(v) for v in y[1] if np.isfinite(v)] + [0.0])
        for s, t in zip(x[1], y[1]):
            try:
                if isinstance(s, SV):
                    v = ev.poly(s.p)
                elif isinstance(s, CV):
                    v = complex(ev.poly(core.to_poly(s.re)), ev.poly(core.to_poly(s.im)))
                elif isinstance(s, SymBool):
                    v = float(ev.bool(core.tree(s)))
                else:
                    v = s
            except (alg.EvalError, OverflowError, ZeroDivisionError, ValueError):
                continue
            ok = v == t or (np.isnan(v) and np.isnan(t)) or \
                (np.isfinite(v) and np.isfinite(t)
                 and abs(v - t) <= 1e-4 * max(abs(v), abs(t)) + 1e-6 * scale + 1e-9)
            if not ok:
                bad.append(f'{v} symbolic against {t} real')
    return bad


def inside(pc, values, zero):
    """Does the point lie inside the bound (numerically away from the excluded zero sets)?"""
    if zero != 'assume':
        return True
    ev = alg.Eval(values)
    try:
        for b in pc:
            if b[0] == 'not' and b[1][0] == 'eq':
                p = b[1][1]
                t = sum(abs(ev.poly(alg.Poly({m: c}))) for m, c in p.t.items())
                if abs(ev.poly(p)) <= 1e-7 * t:
                    return False
            elif not ev.bool(b):
                return False
    except (alg.EvalError, KeyError, OverflowError, ValueError, ZeroDivisionError):
        return False
    return True


def run_case(case, deadline, seed):
    """Decides one case; returns a plain dict."""
    st = core.Stats()
    paths = []               # (records, pc, candidates, undecided)
    res = {'name': case.name, 'bound': case.bound, 'violations': [], 'undecided': [],
           'unsupported': None, 'stats': None, 'functions': [], 'validated': 0, 'concrete': 0,
           'sample': None}
    t0 = time.time()
    if case.seconds:
        deadline = min(deadline, t0 + case.seconds)
    concrete_log = []

    def try_concrete(values, sd, mag=1):
        res['concrete'] += 1
        status, msg, E = run_concrete(case, values, sd, mag)
        if status == 'fail':
            res['violations'].append({'msg': msg, 'values': dict(E.used), 'seed': sd,
                                      'case': case.name})
        return status, msg, E

    loader.EXECUTED.clear()
    loader.watch_functions()
    try:
        sys.monitoring.restart_events()
    except Exception:
        pass

    def one(c):
        E = Env(True, ctx=c)
        try:
            case.fn(E)
        except HarnessStop:
            pass
        except (Unsupported, PathAbort, Budget, Skip):
            raise
        except RecursionError as e:
            raise Unsupported(f'recursion {e}')
        except Exception as e:
            if os.environ.get('VERIF_TRACE'):
                traceback.print_exc()
            E.fail(f'{type(e).__name__}: {e}')
        paths.append(1)
        res['candidates'] = res.get('candidates', 0) + len(E.candidates)
        found = False
        for msg, vals in E.candidates[:4]:
            if vals is not None and inside(c.pc, vals, case.zero):
                status, m2, _ = try_concrete(vals, seed)
                if status == 'fail':
                    res['violations'][-1]['by'] = f'solver: {msg}'
                    found = True
                    break
        if E.candidates and not found:
            for k in range(14 if case.wide else 10):
                mag = (1e-11, 1e-7, 1e7, 1e10)[k - 10] if k >= 10 else 1
                status, m2, _ = try_concrete({}, seed * 1000 + 17 * k + 1, mag)
                if status == 'fail':
                    res['violations'][-1]['by'] = f'solver: {E.candidates[0][0]} (generic point)'
                    found = True
                    break
            if not found:
                res['undecided'].append(f'counterexample not reproduced: {E.candidates[0][0]}')
        res['undecided'] += E.undecided
        if found:
            raise _Done()
        # validation of the encoding against the real code on this path
        if res['validated'] < max(case.runs, 3):
            pts = []
            r, m = c.solve([], want_model=True, timeout=1.0)
            if r == 'sat' and inside(c.pc, c.model_inputs(m), case.zero):
                pts.append((c.model_inputs(m), seed))
            for k in range(2):
                pts.append(({}, seed * 77 + k + 13 * len(paths)))
            miss = []
            for vals, sd in pts:
                status, msg, E2 = try_concrete(vals, sd)
                if status == 'fail':
                    res['violations'][-1]['by'] = 'concrete replay of a path witness'
                    raise _Done()
                if status == 'pass':
                    bad = compare_records(E.records, E2, c.pc, E2.used)
                    if bad is not None:
                        if bad:
                            miss.append(bad[0])
                        else:
                            res['validated'] += 1
                            if res['sample'] is None:
                                res['sample'] = {k: v for k, v in list(E2.used.items())[:6]}
            if miss and len(miss) * 2 > len(pts):
                res['undecided'].append(f'encoding differs from the real code: {miss[0]}')

    try:
        core.explore(one, st, deadline, case.log_grid, case.timeout, case.max_paths, case.zero)
    except _Done:
        pass
    except Unsupported as e:
        res['unsupported'] = f'not encodable: {e}'
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
    except Budget:
        res['unsupported'] = 'time budget exhausted'
    except MemoryError:
        res['unsupported'] = 'out of memory'
    if not res['violations']:
        n = case.runs
        if res['unsupported'] or res['undecided']:
            n = max(n, 12)
        mags = [1] * n + [1e-11, 1e7] * (case.wide and n >= 12)
        for k, mag in enumerate(mags):
            if res['violations'] or time.time() > deadline + 20:
                break
            status, msg, E = try_concrete({}, seed * 7919 + k, mag)
            if status == 'fail':
                res['violations'][-1]['by'] = 'concrete run'
    if not paths and not res['unsupported'] and not res['violations']:
        res['undecided'].append('vacuous: no feasible path')
    res['stats'] = st.dict()
    res['functions'] = sorted({f'{f}:{q}' for f, q in loader.EXECUTED})
    res['paths'] = len(paths)
    res['wall_s'] = time.time() - t0
    return res


class _Done(BaseException):
    pass
