"""Callees replaced by their contracts, and library shims, for symbolic runs.

Every replacement is listed in TRUSTED / CONTRACTED and ends up in the
evidence.  Replacement is by identity: each tespy module attribute that *is*
the original function object is swapped, so import style does not matter.
"""
from __future__ import annotations

import contextlib
import logging
import math
import sys

import numpy as np

from . import term as T
from .engine import Sym, SymBool, Unsupported, cur, is_sym, lift

logging.disable(logging.CRITICAL)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        return float(x)


def _m1(name, orig):
    def f(x, *a):
        if isinstance(x, Sym):
            if a:
                raise Unsupported("math." + name + " with extra arguments")
            return getattr(x, name)()
        return orig(x, *a)
    f.__name__ = name
    return f


def _np1(name, orig):
    def f(x, *a, **k):
        if isinstance(x, Sym):
            return getattr(x, name)()
        return orig(x, *a, **k)
    return f


def _np_pred(orig, symval):
    def f(x, *a, **k):
        if is_sym(x):
            return symval
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([f(y) for y in x.ravel()],
                            dtype=bool).reshape(x.shape)
        return orig(x, *a, **k)
    return f


def _np_zeros(orig):
    def f(shape, dtype=None, *a, **k):
        g = sys._getframe(1).f_globals.get("__name__", "")
        if dtype is None and g.startswith("tespy"):
            r = orig(shape, dtype=object)
            r.fill(0)
            return r
        if dtype is None:
            return orig(shape, *a, **k)
        return orig(shape, dtype, *a, **k)
    return f


def _obj(a):
    return isinstance(a, np.ndarray) and a.dtype == object and any(
        is_sym(x) for x in a.ravel())


def _linalg(orig, f):
    def g(a, *args, **k):
        if isinstance(a, (list, tuple)):
            a = np.array(a, dtype=object)
        if _obj(a) or any(_obj(x) for x in args):
            return f(a, *args, **k)
        if isinstance(a, np.ndarray) and a.dtype == object:
            a = a.astype(float)
        return orig(a, *args, **k)
    g.__name__ = orig.__name__
    return g


def _sym_det(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    return sum((-1) ** j * a[0][j] * _sym_det(
        [[r[k] for k in range(n) if k != j] for r in a[1:]])
        for j in range(n) if is_sym(a[0][j]) or a[0][j] != 0)


def sym_inv(a):
    """contract of numpy.linalg.inv: the inverse, LinAlgError if there is
    none (closed form, small matrices)"""
    h = cur().data.get("inv")
    if h is not None:
        return h(a)
    n = a.shape[0]
    if n > 3:
        raise Unsupported("symbolic inverse of a large matrix")
    A = [[a[i, j] for j in range(n)] for i in range(n)]
    d = _sym_det(A)
    if d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [[A[r][c] for c in range(n) if c != i]
                     for r in range(n) if r != j]
            out[i, j] = (-1) ** (i + j) * (
                _sym_det(minor) if minor else 1) / d
    return out


def sym_norm(a, *args, **k):
    if args or k:
        raise Unsupported("norm with options")
    xs = [x for x in np.asarray(a).ravel() if is_sym(x) or x != 0]
    if len(xs) == 1:
        return abs(xs[0])
    return sum(x * x for x in xs) ** 0.5


LINALG = {"inv": sym_inv, "solve": lambda a, b: sym_inv(a).dot(b),
          "norm": sym_norm}


def tespy_modules():
    return [m for n, m in list(sys.modules.items())
            if n.startswith("tespy") and m is not None]


@contextlib.contextmanager
def patched(repl=(), shims=True):
    """repl: list of (original object, replacement)."""
    saved = []

    def setattr_(obj, k, v):
        saved.append((obj, k, getattr(obj, k, _MISSING)))
        setattr(obj, k, v)

    mods = tespy_modules()
    hits = {}
    try:
        for orig, new in repl:
            n = 0
            for m in mods:
                for k, v in list(vars(m).items()):
                    if v is orig:
                        setattr_(m, k, new)
                        n += 1
            hits[getattr(orig, "__name__", str(orig))] = n
        if shims:
            for m in mods:
                if "float" not in vars(m):
                    setattr_(m, "float", FloatShim)
                # names imported from math directly
                for k, v in list(vars(m).items()):
                    if getattr(v, "__module__", None) == "math" and \
                            callable(v) and k in ("log", "log10", "exp",
                                                  "sqrt", "sin", "cos"):
                        setattr_(m, k, _m1(k, v))
            for k in ("log", "log10", "exp", "sqrt", "sin", "cos"):
                setattr_(math, k, _m1(k, getattr(math, k)))
                setattr_(np, k, _np1(k, getattr(np, k)))
            oc = math.copysign

            def copysign(x, y):
                if is_sym(x) or is_sym(y):
                    return abs(x) if y >= 0 else -abs(x)
                return oc(x, y)
            setattr_(math, "copysign", copysign)
            o = math.isnan
            setattr_(math, "isnan",
                     lambda x, o=o: False if is_sym(x) else o(x))
            setattr_(np, "isnan", _np_pred(np.isnan, False))
            setattr_(np, "isinf", _np_pred(np.isinf, False))
            setattr_(np, "isfinite", _np_pred(np.isfinite, True))
            setattr_(np, "zeros", _np_zeros(np.zeros))
            for k, f in LINALG.items():
                o = getattr(np.linalg, k)
                new = _linalg(o, f)
                setattr_(np.linalg, k, new)
                for m in mods:
                    for kk, v in list(vars(m).items()):
                        if v is o:
                            setattr_(m, kk, new)
            import pandas as pd
            oa = pd.core.generic.NDFrame.astype

            def astype(self, dtype, *a, **k):
                f = lambda d: object if d is FloatShim else d  # noqa: E731
                if isinstance(dtype, dict):
                    dtype = {c: f(d) for c, d in dtype.items()}
                else:
                    dtype = f(dtype)
                return oa(self, dtype, *a, **k)
            setattr_(pd.core.generic.NDFrame, "astype", astype)
        yield hits
    finally:
        for obj, k, v in reversed(saved):
            if v is _MISSING:
                delattr(obj, k)
            else:
                setattr(obj, k, v)


_MISSING = object()


# ---------------------------------------------------- callee contracts
def exact_partial(func, args, kwargs, pos, name):
    """d func(args)/d arg[pos] at args: contract of the central-difference
    helpers (verified on their own in contracts/numeric.py)."""
    ctx = cur()
    n = ctx.data.get("fresh", 0)
    ctx.data["fresh"] = n + 1
    v = T.var(f"#{name}{n}")
    a = list(args)
    actual = lift(a[pos])
    a[pos] = Sym(v)
    r = func(*a, **kwargs)
    if not is_sym(r):
        return 0.0
    d = T.diff(r.t, v)
    return Sym(T.subst(d, {v.id: actual}))


def numeric_deriv_contract(obj, func, dx, conn=None, **kwargs):
    """Contract of _numeric_deriv: the partial derivative of func at the
    current state in the variable named by dx, state unchanged."""
    ctx = cur()
    if conn is None:
        x = obj.get_attr(dx).val
    elif dx in conn.fluid.is_var:
        x = conn.fluid.val[dx]
    elif dx in ("m", "p", "h"):
        x = conn.get_attr(dx).val_SI
    else:
        raise ValueError("numeric derivative of unknown variable " + str(dx))
    ctx.data["numeric_deriv"] = ctx.data.get("numeric_deriv", 0) + 1
    memo = ctx.data.setdefault("nd_memo", {})
    if not (isinstance(x, Sym) and x.t.op == "v"):
        # state is a plain number here (warm-up iteration): havoc
        n = ctx.data["havoc"] = ctx.data.get("havoc", 0) + 1
        return Sym(T.var(f"#havoc{n}"))
    r = func(**kwargs)
    if not is_sym(r):
        if isinstance(r, (int, float, np.floating)):
            return 0.0
        raise Unsupported("numeric derivative of a non-scalar")
    key = (r.t.id, x.t.id)
    if key not in memo:
        memo[key] = Sym(T.diff(r.t, x.t))
    return memo[key]


def fluid_repl(mixture=True):
    """Replacements for the fluid property layer.

    Difference quotients -> exact derivative (contract).  For mixtures the
    property functions are uninterpreted functions of state, composition and
    mixing rule; for pure fluids the real dispatch code runs down to the
    (uninterpreted) back end wrapper.
    """
    import tespy.tools.fluid_properties.functions as F
    import tespy.tools.helpers as H
    real = {}
    repl = []

    def mixname(name, fluid_data, rule):
        return name + "[" + ",".join(fluid_data) + "|" + str(rule) + "]"

    def mk(name, npos, rule_kw=True, positive=False):
        orig = getattr(F, name)
        real[name] = orig

        def f(*args, **kwargs):
            names = orig.__code__.co_varnames[:orig.__code__.co_argcount]
            b = dict(zip(names, args))
            b.update(kwargs)
            fd = b["fluid_data"]
            if len(fd) == 1:
                return orig(*args, **kwargs)
            xs = [d["mass_fraction"] for d in fd.values()]
            st = [b[n] for n in names if n not in
                  ("fluid_data", "mixing_rule", "T0")]
            return cur().fn(mixname(name, fd, b.get("mixing_rule")),
                            *st, *xs, positive=positive)
        f.__name__ = name
        return orig, f

    if mixture:
        for name, pos in (("T_mix_ph", True), ("h_mix_pT", False),
                          ("s_mix_ph", False), ("s_mix_pT", False),
                          ("v_mix_ph", True), ("v_mix_pT", True),
                          ("T_mix_ps", True), ("isentropic", False),
                          ("viscosity_mix_ph", True),
                          ("viscosity_mix_pT", True)):
            repl.append(mk(name, 2, positive=pos))

    def dfun(dname, base, pos):
        orig = getattr(F, dname)

        def f(*args, **kwargs):
            names = orig.__code__.co_varnames[:orig.__code__.co_argcount]
            b = dict(zip(names, args))
            b.update(kwargs)
            target = getattr(F, base)
            first = [b[n] for n in names if n not in
                     ("fluid_data", "mixing_rule", "T0")]
            kw = {k: b[k] for k in ("fluid_data", "mixing_rule", "T0")
                  if k in b and (k != "T0" or base not in
                                 ("h_mix_pQ", "T_sat_p"))}
            return exact_partial(target, first, kw, pos, dname)
        f.__name__ = dname
        return orig, f

    for dname, base, pos in (("dT_mix_pdh", "T_mix_ph", 1),
                             ("dT_mix_dph", "T_mix_ph", 0),
                             ("dv_mix_dph", "v_mix_ph", 0),
                             ("dv_mix_pdh", "v_mix_ph", 1),
                             ("dh_mix_dpQ", "h_mix_pQ", 0),
                             ("dT_sat_dp", "T_sat_p", 0)):
        if hasattr(F, dname):
            repl.append(dfun(dname, base, pos))

    if hasattr(F, "dT_mix_ph_dfluid"):
        orig = F.dT_mix_ph_dfluid

        def dfl(p, h, fluid, fluid_data, mixing_rule=None, T0=None):
            ctx = cur()
            n = ctx.data.get("fresh", 0)
            ctx.data["fresh"] = n + 1
            v = T.var(f"#x{n}")
            fd = {k: dict(d) for k, d in fluid_data.items()}
            actual = lift(fd[fluid]["mass_fraction"])
            fd[fluid]["mass_fraction"] = Sym(v)
            r = F.T_mix_ph(p, h, fd, mixing_rule=mixing_rule, T0=T0)
            if not is_sym(r):
                return 0.0
            return Sym(T.subst(T.diff(r.t, v), {v.id: actual}))
        repl.append((orig, dfl))
    repl.append((H._numeric_deriv, numeric_deriv_contract))
    return repl
