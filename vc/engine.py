"""Verification condition generation by symbolic execution of the real code.

The functions under contract are CPython function objects imported from
/repo/src.  They are executed with symbolic numbers (class Sym) in their
parameters and fields; every branch on a symbolic condition splits the run
(depth first, by re-execution with a recorded prefix of decisions), so the
union of the runs covers every input satisfying the precondition.  At the end
of a run the contract adds obligations, each discharged under that run's path
condition by the field normaliser or by z3.

A harness is a function  h(ctx)  which builds the pre-state with
ctx.real/ctx.flag, calls the real code and states postconditions with
ctx.eq/ctx.true.  The same harness runs with plain floats and no patches
(ctx.mode == 'conc'): that is the CPython cross-check and the replay of
counterexamples.
"""
from __future__ import annotations

import math
import os
import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import term as T


class Unsupported(Exception):
    """The symbolic executor cannot follow the code (tool limit)."""


# time for the feasibility of a branch, and for the second look at a path on
# which an obligation was not discharged
FEASIBLE_MS = int(os.environ.get("VC_FEASIBLE_MS", 300))
SECOND_MS = 8000


class PathEnd(Exception):
    """Path found infeasible or cut."""


class Budget(Exception):
    pass


_CUR = [None]       # the running SymCtx


def cur():
    c = _CUR[0]
    if c is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return c


def _lift(x):
    """Python number -> Term, or None when it is nan/inf or not a number."""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return T.const(1 if bool(x) else 0)
    if isinstance(x, (bool, np.bool_)):
        return T.const(int(x))
    if isinstance(x, (int, np.integer)):
        return T.const(int(x))
    if isinstance(x, Fraction):
        return T.const(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return None
        return T.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _lift(x.item())
    return NotImplemented


def _isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(float(x))


def _bin(f, swap=False):
    def op(self, other):
        o = _lift(other)
        if o is NotImplemented:
            if isinstance(other, np.ndarray):
                r = np.empty(other.shape, dtype=object)
                for i in np.ndindex(other.shape):
                    r[i] = op(self, other[i])
                return r
            return NotImplemented
        if o is None:
            if _isnan(other):
                return math.nan
            raise Unsupported("arithmetic with infinity")
        a, b = (o, self.t) if swap else (self.t, o)
        return Sym(f(a, b))
    return op


def _cmp(f, inf_pos, inf_neg):
    def op(self, other):
        o = _lift(other)
        if o is NotImplemented:
            return NotImplemented
        if o is None:
            if _isnan(other):
                return False
            return inf_pos if other > 0 else inf_neg
        return SymBool(f(self.t, o))
    return op


def _lt(a, b):
    return T.bnot(T.le(b, a))


def _div(a, b):
    if b.op != "c":
        cur().side(T.bnot(T.eq(b, T.ZERO)))
    return T.div(a, b)


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    __add__ = _bin(T.add)
    __radd__ = _bin(T.add, True)
    __sub__ = _bin(T.sub)
    __rsub__ = _bin(T.sub, True)
    __mul__ = _bin(T.mul)
    __rmul__ = _bin(T.mul, True)
    __truediv__ = _bin(_div)
    __rtruediv__ = _bin(_div, True)
    __le__ = _cmp(T.le, True, False)
    __lt__ = _cmp(_lt, True, False)
    __ge__ = _cmp(lambda a, b: T.le(b, a), False, True)
    __gt__ = _cmp(lambda a, b: _lt(b, a), False, True)

    def __eq__(self, other):
        o = _lift(other)
        if o is NotImplemented or o is None:
            return False
        return SymBool(T.eq(self.t, o))

    def __ne__(self, other):
        o = _lift(other)
        if o is NotImplemented or o is None:
            return True
        return SymBool(T.bnot(T.eq(self.t, o)))

    def __hash__(self):
        return hash(("Sym", self.t.id))

    def __neg__(self):
        return Sym(T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __round__(self, n=0):
        return cur().fn(f"round{n}", self)

    def __pow__(self, e):
        o = _lift(e)
        if o is NotImplemented:
            return NotImplemented
        if o is None or o.op != "c":
            raise Unsupported("symbolic exponent")
        q = o.val.limit_denominator(10 ** 6)
        if q < 0:
            cur().side(T.bnot(T.eq(self.t, T.ZERO)))
        if q.denominator % 2 == 0:
            cur().side(T.le(T.ZERO, self.t))
        return Sym(T.power(self.t, q))

    def __rpow__(self, base):
        o = _lift(base)
        if o is NotImplemented or o is None:
            return NotImplemented
        # b**x = exp(x log b)
        return Sym(T.fun("exp", (T.mul(self.t, T.fun("log", (o,))),)))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.t.op == "c":
            return float(self.t.val)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    __index__ = None

    def __repr__(self):
        return "Sym<" + T.to_str(self.t) + ">"

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy ufuncs on object arrays call these
    def log(self):
        cur().side(_lt(T.ZERO, self.t))
        r = Sym(T.fun("log", (self.t,)))
        cur().axiom_log(self.t, r.t)
        return r

    def log10(self):
        cur().side(_lt(T.ZERO, self.t))
        return Sym(T.fun("log10", (self.t,)))

    def exp(self):
        return Sym(T.fun("exp", (self.t,)))

    def sqrt(self):
        return self ** 0.5

    def sin(self):
        return Sym(T.fun("sin", (self.t,)))

    def cos(self):
        return Sym(T.fun("cos", (self.t,)))

    def conjugate(self):
        return self


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().decide(self.t)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(T.band(self.t, o.t))
        return self if o else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(T.bor(self.t, o.t))
        return True if o else self

    __ror__ = __or__

    def __invert__(self):
        return SymBool(T.bnot(self.t))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(("SymBool", self.t.id))

    def __repr__(self):
        return "SymBool<" + T.to_str(self.t) + ">"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def lift(x):
    t = _lift(x)
    if t is NotImplemented:
        raise Unsupported("not a number: %r" % (type(x),))
    return t


# ------------------------------------------------------------------ z3
_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


class Z3Conv:
    def __init__(self):
        self.z = z3mod()
        self.memo = {}
        self.ufs = {}

    def conv(self, t):
        z = self.z
        memo = self.memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            a = [memo[y.id] for y in x.args]
            op = x.op
            if op == "c":
                r = z.RealVal(str(x.val))
            elif op == "v":
                r = z.Real(x.val)
            elif op == "bv":
                r = z.Bool(x.val)
            elif op == "+":
                r = a[0] + a[1]
            elif op == "*":
                r = a[0] * a[1]
            elif op == "^":
                e = x.val
                n = math.floor(e)
                f = e - n
                r = None
                if n != 0:
                    b = a[0]
                    p = b
                    for _ in range(abs(n) - 1):
                        p = p * b
                    r = p if n > 0 else 1 / p
                if f != 0:
                    g = self.uf("pow_" + str(f), 1)(a[0])
                    r = g if r is None else r * g
            elif op == "f":
                r = self.uf(x.val, len(a))(*a)
            elif op == "<=":
                r = a[0] <= a[1]
            elif op == "<":
                r = a[0] < a[1]
            elif op == "==":
                r = a[0] == a[1]
            elif op == "not":
                r = z.Not(a[0])
            elif op == "and":
                r = z.And(*a)
            elif op == "true":
                r = z.BoolVal(True)
            elif op == "false":
                r = z.BoolVal(False)
            else:
                raise ValueError(op)
            memo[x.id] = r
        return memo[t.id]

    def uf(self, name, n):
        k = (name, n)
        if k not in self.ufs:
            z = self.z
            self.ufs[k] = z.Function(name, *([z.RealSort()] * (n + 1)))
        return self.ufs[k]


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0


class Obligation:
    __slots__ = ("name", "status", "backend", "detail", "model", "path",
                 "text")

    def __init__(self, name, status, backend="", detail="", model=None,
                 path=None, text=""):
        self.name = name
        self.status = status       # proved | refuted | unknown
        self.backend = backend
        self.detail = detail
        self.model = model
        self.path = path
        self.text = text


class BaseCtx:
    mode = None

    def positive(self, name, lo=None, hi=None):
        return self.real(name, lo if lo is not None else 0, hi, strict=True)


class SymCtx(BaseCtx):
    """One symbolic run (path) of a harness."""
    mode = "sym"

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.trail = []            # (term, value, forced)
        self.known = {}
        self.fps = {}              # fingerprints of terms
        self.facts = []
        self.pc = []               # path condition and assumptions (terms)
        self.sides = []            # definedness side conditions
        self._sideset = set()
        self.names = {}
        self.norm = T.Normaliser()
        self.conv = Z3Conv()
        self.solver = None
        self._nsolved = 0
        self._looked = -1
        self.obs = 0
        self.data = {}

    # -- inputs
    def real(self, name, lo=None, hi=None, strict=False, typ=None):
        v = T.var(name)
        self.names[name] = v
        if lo is not None:
            self.assume_t(_lt(T.const(lo), v) if strict
                          else T.le(T.const(lo), v))
        if hi is not None:
            self.assume_t(_lt(v, T.const(hi)) if strict
                          else T.le(v, T.const(hi)))
        return Sym(v)

    def flag(self, name):
        return SymBool(T.bvar(name))

    def choice(self, name, options):
        """Case split over finitely many concrete options (all explored)."""
        options = list(options)
        for i, o in enumerate(options[:-1]):
            if self.decide(T.bvar(f"{name}=={i}")):
                return o
        return options[-1]

    # -- assumptions
    def assume_t(self, t):
        if t.op == "true":
            return
        if t.op == "false":
            raise PathEnd()
        self.pc.append(t)
        self._learn(t, True)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.assume_t(cond.t)
        elif not cond:
            raise PathEnd()

    def side(self, t):
        if t.id not in self._sideset and t.op not in ("true",):
            self._sideset.add(t.id)
            self.sides.append(t)

    def axiom_log(self, x, r):
        """sign of the logarithm"""
        if ("log", r.id) in self.data:
            return
        self.data[("log", r.id)] = True
        imp = lambda a, b: self.pc.append(T.bor(T.bnot(a), b))  # noqa: E731
        one = T.const(1)
        pairs = [(x, one, T.TRUE)]
        if x.op == "*" and any(a.op == "^" and a.val == -1 for a in x.args):
            a, b = x.args
            if a.op == "^" and a.val == -1:
                a, b = b, a
            b = b.args[0]
            pairs = [(a, b, _lt(T.ZERO, b)), (b, a, _lt(b, T.ZERO))]
        for a, b, c in pairs:
            imp(T.band(c, _lt(b, a)), _lt(T.ZERO, r))
            imp(T.band(c, _lt(a, b)), _lt(r, T.ZERO))
            imp(T.band(c, T.eq(a, b)), T.eq(r, T.ZERO))

    def _learn(self, t, val):
        if t.op == "not":
            self._learn(t.args[0], not val)
        elif t.op == "and" and val:
            for a in t.args:
                self._learn(a, True)
        self.known[t.id] = val
        self._fact(t, val)

    def _side_const(self, t):
        """comparison as (x, op, c, sign): sign*x op c"""
        a, b = t.args
        if b.op == "c":
            return a, b.val, 1
        if a.op == "c":
            return b, a.val, -1
        return T.sub(a, b), Fraction(0), 1

    def _fact(self, t, val):
        """bounds on an expression: (x, lo, lo_strict, hi, hi_strict)"""
        if t.op not in ("<=", "=="):
            return
        x, c, s = self._side_const(t)
        if t.op == "==":
            if val:
                self.facts.append((x, c, False, c, False))
            else:
                self.facts.append((x, "!=", c, None, None))
            return
        # s=1: x <= c; s=-1: c <= x
        up = (s == 1) == val        # upper bound
        if up:
            self.facts.append((x, None, False, c, not val))
        else:
            self.facts.append((x, c, not val, None, False))

    def _related(self, t):
        """decide a comparison from facts on the same expression, written
        differently (equality by the field normaliser)"""
        x, c, s = self._side_const(t)
        lo = hi = None
        los = his = False
        fx = T.fingerprint(x, self.fps)
        for y, l, ls, h, hs in self.facts:
            fy = T.fingerprint(y, self.fps)
            if fx != fy and (fx + fy) % T.PRIME:
                continue
            try:
                if x is y or self.norm.equal(x, y):
                    sg = 1
                elif self.norm.equal(x, T.neg(y)):
                    sg = -1
                else:
                    continue
            except (T.TooBig, ZeroDivisionError):
                continue
            if l == "!=":
                if t.op == "==" and sg * ls == c:
                    return False
                continue
            if sg < 0:
                l, ls, h, hs = (None if h is None else -h, hs,
                                None if l is None else -l, ls)
            if l is not None and (lo is None or (l, ls) > (lo, los)):
                lo, los = l, ls
            if h is not None and (hi is None or (h, not hs) < (
                    hi, not his)):
                hi, his = h, hs
        if t.op == "==":
            if lo is not None and (lo > c or lo == c and los):
                return False
            if hi is not None and (hi < c or hi == c and his):
                return False
            if lo is not None and lo == hi == c:
                return True
            return None
        if s == 1:      # x <= c ?
            if hi is not None and hi <= c:
                return True
            if lo is not None and (lo > c or lo == c and los):
                return False
        else:           # c <= x ?
            if lo is not None and lo >= c:
                return True
            if hi is not None and (hi < c or hi == c and his):
                return False
        return None

    # -- branching
    def _solver(self):
        z = z3mod()
        if self.solver is None:
            self.solver = z.Solver()
            self.solver.set("timeout", FEASIBLE_MS)
        while self._nsolved < len(self.pc):
            self.solver.add(self.conv.conv(self.pc[self._nsolved]))
            self._nsolved += 1
        return self.solver

    def feasible(self, t):
        if t.op == "bv" or (t.op == "not" and t.args[0].op == "bv"):
            return True
        z = z3mod()
        t0 = time.time()
        s = self._solver()
        s.push()
        s.add(self.conv.conv(t))
        r = s.check()
        s.pop()
        self.run.stats.solver_s += time.time() - t0
        self.run.stats.queries += 1
        return r != z.unsat

    def impossible(self):
        """second look, with more time, at a path on which something could
        not be shown: is there any state that takes it?  (Branches are kept
        whenever their feasibility is not known after a short time, so a
        busy machine explores paths that do not exist.)"""
        if self._looked == len(self.pc) or self.run.second_s <= 0:
            return False
        self._looked = len(self.pc)
        z = z3mod()
        t0 = time.time()
        try:
            for inc in (True, False):
                s = z.Solver()
                s.set("timeout", SECOND_MS)
                if inc:
                    for i, p in enumerate(self.pc):
                        if i == len(self.pc) - 1:
                            s.check()
                            s.push()
                        s.add(self.conv.conv(p))
                else:
                    for p in list(self.pc) + list(self.sides):
                        s.add(self.conv.conv(p))
                if s.check() == z.unsat:
                    return True
        finally:
            self.run.second_s -= time.time() - t0
            self.run.stats.solver_s += time.time() - t0
        return False

    def decide(self, t):
        if t.op == "true":
            return True
        if t.op == "false":
            return False
        flip = False
        while t.op == "not":
            t = t.args[0]
            flip = not flip
        if t.id in self.known:
            return self.known[t.id] != flip
        if t.op in ("<=", "=="):
            # canonical: decide on the normal form where it is constant
            try:
                d = self.norm.norm(T.sub(t.args[0], t.args[1]))
                if not d or set(d) == {()}:
                    c = d.get((), Fraction(0))
                    val = c <= 0 if t.op == "<=" else c == 0
                    self.known[t.id] = val
                    return val != flip
            except (T.TooBig, ZeroDivisionError):
                pass
            val = self._related(t)
            if val is not None:
                self.known[t.id] = val
                return val != flip
        i = len(self.trail)
        if i >= self.run.max_depth:
            raise Budget("path too long")
        if i < len(self.prefix):
            val, forced = self.prefix[i]
        else:
            can_t = self.feasible(t)
            can_f = self.feasible(T.bnot(t)) if can_t else True
            if can_t and can_f:
                val, forced = True, False
                self.run.work.append(
                    [(v, f) for _, v, f in self.trail] + [(False, True)])
            else:
                val, forced = can_t, True
        self.trail.append((t, val, forced))
        self.known[t.id] = val
        self._fact(t, val)
        lit = t if val else T.bnot(t)
        self.pc.append(lit)
        return val != flip

    # -- postconditions
    def eq(self, name, a, b, tol=None, scale=None):
        self.obs += 1
        run = self.run
        if not is_sym(a) and not is_sym(b):
            an, bn = _isnan(a), _isnan(b)
            if an or bn:
                ok = an and bn
            else:
                ok = _close(a, b, 1e-9, 0)
            run.record(self, Obligation(
                name, "proved" if ok else "refuted", "evaluation",
                f"{a!r} vs {b!r}", model={}))
            return
        if _isnan(a) or _isnan(b):
            run.record(self, Obligation(name, "refuted", "evaluation",
                                        f"{a!r} vs {b!r}", model={}))
            return
        ta, tb = lift(a), lift(b)
        run.discharge_eq(self, name, ta, tb)

    def true(self, name, cond):
        self.obs += 1
        if isinstance(cond, SymBool):
            self.run.discharge_true(self, name, cond.t)
        else:
            self.run.record(self, Obligation(
                name, "proved" if cond else "refuted", "evaluation",
                repr(cond), model={}))

    def implies(self, name, cond, concl):
        if isinstance(cond, SymBool) or isinstance(concl, SymBool):
            c = cond.t if isinstance(cond, SymBool) else (
                T.TRUE if cond else T.FALSE)
            d = concl.t if isinstance(concl, SymBool) else (
                T.TRUE if concl else T.FALSE)
            self.true(name, SymBool(T.bor(T.bnot(c), d)))
        else:
            self.true(name, (not cond) or concl)

    def diff(self, value, wrt):
        """Exact partial derivative of a computed value."""
        if not is_sym(value):
            return 0.0
        if not (isinstance(wrt, Sym) and wrt.t.op == "v"):
            raise Unsupported("derivative with respect to a non-variable")
        return Sym(T.diff(value.t, wrt.t))

    def fn(self, name, *args, positive=False):
        s = Sym(T.fun(name, [lift(a) for a in args]))
        if positive:
            key = ("pos", s.t.id)
            if key not in self.data:
                self.data[key] = True
                self.pc.append(_lt(T.ZERO, s.t))
                self._learn(self.pc[-1], True)
        return s


def _close(a, b, tol, scale):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b), scale or 0)


class Violation(Exception):
    def __init__(self, name, detail):
        self.name = name
        self.detail = detail
        super().__init__(name + ": " + detail)


class ConcCtx(BaseCtx):
    """One run of a harness with floats, on the unpatched code."""
    mode = "conc"

    def __init__(self, seed, inputs=None, flags=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.given = inputs or {}
        self.gflags = flags or {}
        self.inputs = {}
        self.fails = []
        self.obs = 0
        self.data = {}
        self.maxdev = 0.0

    def real(self, name, lo=None, hi=None, strict=False, typ=None):
        if name in self.given:
            v = float(self.given[name])
        elif typ is not None:
            v = self.rng.uniform(*typ)
        else:
            a = lo if lo is not None else -10.0
            b = hi if hi is not None else (a + 20.0 if a >= 0 else 10.0)
            v = self.rng.uniform(a, b)
            if strict and v == a:
                v = (a + b) / 2
        self.inputs[name] = v
        return v

    def flag(self, name):
        v = self.gflags[name] if name in self.gflags else (
            self.rng.random() < 0.6)
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        for i, o in enumerate(options[:-1]):
            k = f"{name}=={i}"
            if k in self.gflags:
                if self.gflags[k]:
                    self.inputs[name] = i
                    return o
            elif self.rng.random() < 1.0 / (len(options) - i):
                self.inputs[name] = i
                return o
        self.inputs[name] = len(options) - 1
        return options[-1]

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def fail(self, name, detail):
        self.fails.append((name, detail))

    def eq(self, name, a, b, tol=1e-6, scale=None):
        self.obs += 1
        tol = tol or 1e-6
        if scale is None:
            scale = 1e-9
        try:
            ok = _close(a, b, tol, scale)
        except (TypeError, ValueError) as e:
            ok = False
            b = f"{b!r} ({e})"
        if not ok:
            self.fail(name, f"{a!r} != {b!r}")

    def true(self, name, cond):
        self.obs += 1
        if not cond:
            self.fail(name, "postcondition is false")

    def implies(self, name, cond, concl):
        self.true(name, (not cond) or bool(concl))

    def diff(self, value, wrt):
        raise Unsupported("diff in concrete mode")


class Run:
    """Symbolic exploration of one harness."""

    def __init__(self, name, harness, max_paths=3000, max_depth=400,
                 time_s=60.0, z3_ms=4000, stats=None, crosscheck=False):
        self.name = name
        self.harness = harness
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.time_s = time_s
        self.z3_ms = z3_ms
        self.stats = stats or Stats()
        self.obls = {}         # name -> list[Obligation] not proved
        self.count = {}        # name -> [total, proved]
        self.backends = {}
        self.paths = 0
        self.reached = 0       # paths that reached a postcondition
        self.complete = False
        self.errors = []       # (exception text, flags)
        self.sides = 0
        self.work = []
        self.second_s = 40.0
        self.crosscheck = crosscheck
        self.cross = {"agree": 0, "unknown": 0, "disagree": 0}

    def record(self, ctx, ob):
        if ob.status != "proved" and not ob.model and ctx.impossible():
            raise PathEnd()
        c = self.count.setdefault(ob.name, [0, 0])
        c[0] += 1
        if ob.status == "proved":
            c[1] += 1
            self.backends[ob.backend] = self.backends.get(ob.backend, 0) + 1
        else:
            ob.path = [(T.to_str(t), v) for t, v, _ in ctx.trail]
            if ob.model is not None:
                ob.model = dict(ob.model)
                for t, v, _ in ctx.trail:
                    if t.op == "bv":
                        ob.model[t.val] = v
            self.obls.setdefault(ob.name, []).append(ob)

    def _z3_check(self, ctx, goal, ms=None):
        z = z3mod()
        s = z.Solver()
        s.set("timeout", ms or self.z3_ms)
        t0 = time.time()
        for p in ctx.pc:
            s.add(ctx.conv.conv(p))
        for p in ctx.sides:
            s.add(ctx.conv.conv(p))
        s.add(z.Not(ctx.conv.conv(goal)))
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z.unsat:
            return "proved", None
        if r == z.sat:
            m = s.model()
            model = {}
            for n in ctx.names:
                v = m.eval(z.Real(n), model_completion=True)
                try:
                    if z.is_algebraic_value(v):
                        v = v.approx(20)
                    model[n] = float(v.as_fraction())
                except Exception:
                    pass
            return "refuted", model
        return "unknown", None

    def _second(self, ctx, goal):
        if ctx.impossible():
            raise PathEnd()
        if self.second_s <= 0:
            return "unknown", None
        t0 = time.time()
        try:
            return self._z3_check(ctx, goal, SECOND_MS)
        finally:
            self.second_s -= time.time() - t0

    def discharge_eq(self, ctx, name, a, b):
        t0 = time.time()
        try:
            ok = ctx.norm.equal(a, b)
            if not ok and b.op == "c" and b.val == 0 and a.op == "+":
                # x - y against 0: compare x and y (rounded constants)
                ok = ctx.norm.equal(a.args[0], T.neg(a.args[1]))
        except (T.TooBig, ZeroDivisionError, RecursionError):
            ok = None
        self.stats.solver_s += time.time() - t0
        if ok:
            self.record(ctx, Obligation(name, "proved", "field"))
            if self.crosscheck:
                st, _ = self._z3_check(ctx, T.eq(a, b))
                k = {"proved": "agree", "unknown": "unknown",
                     "refuted": "disagree"}[st]
                self.cross[k] += 1
            return
        st, model = self._z3_check(ctx, T.eq(a, b))
        if st == "unknown":
            st, model = self._second(ctx, T.eq(a, b))
        self.record(ctx, Obligation(
            name, st, "z3", T.to_str(a) + "  =?=  " + T.to_str(b),
            model=model))

    def discharge_true(self, ctx, name, t):
        if t.op == "==":
            return self.discharge_eq(ctx, name, *t.args)
        if ctx.known.get(t.id) is True:
            self.record(ctx, Obligation(name, "proved", "path"))
            return
        st, model = self._z3_check(ctx, t)
        if st == "unknown":
            st, model = self._second(ctx, t)
        self.record(ctx, Obligation(name, st, "z3", T.to_str(t),
                                    model=model))

    def explore(self):
        t0 = time.time()
        self.work = [[]]
        while self.work:
            if self.paths >= self.max_paths or \
                    time.time() - t0 > self.time_s:
                self.complete = False
                break
            prefix = self.work.pop()
            ctx = SymCtx(self, prefix)
            old = _CUR[0]
            _CUR[0] = ctx
            self.paths += 1
            try:
                self.harness(ctx)
                if ctx.obs:
                    self.reached += 1
            except PathEnd:
                pass
            except Budget as e:
                self.errors.append(("budget: " + str(e), {}))
            except RecursionError as e:
                self.errors.append(("recursion: " + str(e), {}))
            except Exception as e:
                if ctx.impossible():
                    continue
                flags = {t.val: v for t, v, _ in ctx.trail if t.op == "bv"}
                self.errors.append((
                    type(e).__name__ + ": " + str(e) + "\n" +
                    traceback.format_exc(limit=-4), flags))
                if len(self.errors) > 20:
                    break
            finally:
                _CUR[0] = old
        else:
            self.complete = True
        return self

    @property
    def total(self):
        return sum(c[0] for c in self.count.values())

    @property
    def proved(self):
        return sum(c[1] for c in self.count.values())
