"""C06: numerical helpers: difference quotients, Newton search, friction
factor.  These are the contracts other properties use for the helpers."""
import math

from vc import patch as P
from vc.bench import Bench
from vc.engine import Sym, is_sym, lift
from vc import term as TT
from vc.runner import Harness

from .jacobian import repl as frepl


def nopatch():
    return []


# ------------------------------------------------------------- _numeric_deriv
def poly(ctx, deg):
    names = "abcd"[:deg + 1]
    cs = [ctx.real("k" + n, typ=(-3, 3)) for n in names]

    def f(x):
        r = 0
        for c in reversed(cs):
            r = r * x + c
        return r

    def df(x):
        r = 0
        for i in range(deg, 0, -1):
            r = r * x + i * cs[i]
        return r
    return f, df, cs


def nd_conn(prop, deg):
    def fn(ctx):
        from tespy.tools.helpers import _numeric_deriv
        b = Bench(ctx, "Valve", share={0: 0}, flags=True, typ={
            "i0.p": (100, 200), "i0.h": (100, 200)})
        c = b.inl[0]
        f, df, _ = poly(ctx, deg)
        dc = c.get_attr(prop)
        x = dc.val_SI
        calls = []

        def func(**kw):
            calls.append((dc.val_SI, kw))
            return f(dc.val_SI)
        r = _numeric_deriv(b.comp, func, prop, c, extra=17)
        ctx.eq(f"d/d{prop}", r, df(x), tol=1e-5)
        ctx.eq("state-restored", dc.val_SI, x, tol=1e-12)
        ctx.true("arguments-passed-on", all(k == {"extra": 17}
                                            for _, k in calls))
        for o in b.conns:
            for q in ("m", "p", "h"):
                if o.get_attr(q) is not dc:
                    ctx.true("others-untouched", o.get_attr(q).val_SI is
                             [v["val"] for v in b.vars
                              if v["dc"] is o.get_attr(q)][0])
    return Harness(f"numeric_deriv:{prop},degree{deg}", fn, repl=nopatch)


def nd_comp(deg):
    def fn(ctx):
        from tespy.tools.helpers import _numeric_deriv
        b = Bench(ctx, "Valve", share={0: 0}, flags=True)
        f, df, _ = poly(ctx, deg)
        d = b.comp.pr
        x = ctx.real("pr", typ=(0.3, 0.9))
        d.val = x
        r = _numeric_deriv(b.comp, lambda **k: f(d.val), "pr", None)
        ctx.eq("d/dpr", r, df(x), tol=1e-4)
        ctx.eq("restored", d.val, x, tol=1e-12)
    return Harness(f"numeric_deriv:component-variable,degree{deg}", fn,
                   repl=nopatch)


def nd_fluid(where):
    typ = {"inner": (0.2, 0.8), "zero": (0.0, 9e-6),
           "one": (1 - 9e-6, 1.0)}[where]

    def fn(ctx):
        from tespy.tools.helpers import _numeric_deriv
        b = Bench(ctx, "Valve", share={0: 0}, fluids=("H2O", "N2"),
                  fluid_vars=True, flags=True,
                  typ={"i0.x[H2O]": typ, "i0.x[N2]": (0.1, 0.9)})
        c = b.inl[0]
        x, y = c.fluid.val["H2O"], c.fluid.val["N2"]
        ctx.assume(x >= 0)
        ctx.assume(x <= 1)
        f, df, _ = poly(ctx, 1)
        pts = []

        def func(**kw):
            pts.append(c.fluid.val["H2O"])
            # evaluated through the data the property functions read
            return f(c.fluid_data["H2O"]["mass_fraction"])
        r = _numeric_deriv(b.comp, func, "H2O", c)
        ctx.eq("d/dx", r, df(x), tol=1e-6, scale=1e-6)
        ctx.eq("restored", c.fluid.val["H2O"], x, tol=1e-12)
        ctx.eq("data-restored", c.fluid_data["H2O"]["mass_fraction"], x,
               tol=1e-12)
        ctx.true("other-fluid-untouched", c.fluid.val["N2"] is y and
                 c.fluid_data["N2"]["mass_fraction"] is y)
        for i, q in enumerate(pts):
            ctx.true(f"evaluated-in-range[{i}]",
                     (q >= 0) & (q <= 1) if is_sym(q) else 0 <= q <= 1)
    return Harness(f"numeric_deriv:fluid,{where}", fn, repl=nopatch)


def nd_wrong():
    def fn(ctx):
        from tespy.tools.helpers import _numeric_deriv
        b = Bench(ctx, "Valve", share={0: 0}, flags=True)
        try:
            _numeric_deriv(b.comp, lambda **k: 1.0, "nope", b.inl[0])
            ctx.true("unknown-variable-refused", False)
        except ValueError:
            ctx.true("unknown-variable-refused", True)
    return Harness("numeric_deriv:unknown", fn, repl=nopatch, conc=1)


# -------------------------------------------------------- fluid differences
class Poly2:
    """wrapper whose properties are polynomials of degree two"""

    def __init__(self, ctx):
        self.k = [ctx.real(f"w{i}", typ=(0.5, 1.5)) for i in range(6)]

    def q(self, a, b):
        k = self.k
        return k[0] + k[1] * a + k[2] * b + k[3] * a * b + \
            k[4] * a * a + k[5] * b * b

    def da(self, a, b):
        k = self.k
        return k[1] + k[3] * b + 2 * k[4] * a

    def db(self, a, b):
        k = self.k
        return k[2] + k[3] * a + 2 * k[5] * b

    def T_ph(self, p, h):
        return self.q(p, h)

    def h_pQ(self, p, Q):
        return self.q(p, Q)

    def T_sat(self, p):
        return self.q(p, 0)

    def d_ph(self, p, h):
        return 1 / self.q(p, h)


DIFFS = [("dT_mix_dph", 2, "da"), ("dT_mix_pdh", 2, "db"),
         ("dv_mix_dph", 2, "da"), ("dv_mix_pdh", 2, "db"),
         ("dh_mix_dpQ", 2, "da"), ("dT_sat_dp", 1, "da")]


def fdiff(name, n, which):
    def fn(ctx):
        import tespy.tools.fluid_properties.functions as F
        w = Poly2(ctx)
        fd = {"A": {"wrapper": w, "mass_fraction": 1},
              "B": {"wrapper": None, "mass_fraction": 0}}
        a, b = ctx.real("a", typ=(100, 300)), ctx.real("b", typ=(100, 300))
        args = (a, b)[:n]
        r = getattr(F, name)(*args, fd)
        exp = getattr(w, which)(a, b if n == 2 else 0)
        ctx.eq(name, r, exp, tol=1e-5)
        ctx.true("data-untouched", fd["A"]["mass_fraction"] == 1 and
                 fd["B"]["mass_fraction"] == 0)
    return Harness("difference:" + name, fn, repl=nopatch)


def fdiff_fluid():
    def fn(ctx):
        import tespy.tools.fluid_properties.functions as F
        x = ctx.real("x", typ=(0.3, 0.5))
        a = ctx.real("ka", typ=(0.5, 1.5))
        b = ctx.real("kb", typ=(0.5, 1.5))
        c = ctx.real("kc", typ=(0.5, 1.5))
        fd = {"A": {"wrapper": None, "mass_fraction": x},
              "B": {"wrapper": None, "mass_fraction": 1 - x}}
        orig = F.T_mix_ph
        seen = []

        def T_mix_ph(p, h, data, mixing_rule=None, T0=None):
            y = data["A"]["mass_fraction"]
            seen.append((p, h, mixing_rule))
            return a + b * y + c * y * y
        F.T_mix_ph = T_mix_ph
        try:
            p, h = ctx.real("p"), ctx.real("h")
            r = F.dT_mix_ph_dfluid(p, h, "A", fd, mixing_rule="ideal")
        finally:
            F.T_mix_ph = orig
        ctx.eq("dT/dx", r, b + 2 * c * x, tol=1e-5)
        ctx.eq("restored", fd["A"]["mass_fraction"], x, tol=1e-12)
        ctx.true("state-passed", all(s[0] is p and s[1] is h and
                                     s[2] == "ideal" for s in seen))
    return Harness("difference:dT_mix_ph_dfluid", fn, repl=nopatch)


def central():
    def fn(ctx):
        from tespy.tools.helpers import central_difference
        f, df, _ = poly(ctx, 2)
        x = ctx.real("x", typ=(1, 5))
        o = ctx.real("other")
        seen = []

        def func(T=None, other=None, **kw):
            seen.append(other)
            return f(T)
        kw = {"T": x, "other": o}
        r = central_difference(function=func, parameter="T", delta=0.01,
                               **kw)
        ctx.eq("derivative", r, df(x), tol=1e-6)
        ctx.true("other-arguments", all(s is o for s in seen))
        ctx.true("caller-untouched", kw["T"] is x and kw["other"] is o)
    return Harness("central_difference", fn, repl=nopatch)


# --------------------------------------------------------------------- Newton
def newton_affine(mode):
    """f affine: the returned value solves f(x) = target, or is the violated
    bound"""
    def fn(ctx):
        from tespy.tools.helpers import newton_with_kwargs
        a = ctx.real("a", typ=(0.5, 3))
        b = ctx.real("b", typ=(-3, 3))
        t = ctx.real("target", typ=(5, 50))
        ctx.assume(a != 0)
        lo, hi = ctx.real("lo", typ=(-40, -20)), ctx.real("hi", typ=(5, 20))
        x0 = ctx.real("x0", typ=(-10, 10))
        ctx.assume(lo < hi)
        ctx.assume((x0 >= lo))
        ctx.assume((x0 <= hi))
        sol = (t - b) / a
        if mode == "inside":
            ctx.assume(sol > lo)
            ctx.assume(sol < hi)
        elif mode == "above":
            ctx.assume(sol > hi)
        else:
            ctx.assume(sol < lo)
        n = [0]

        def f(x=None, **k):
            n[0] += 1
            if mode != "inside" and n[0] > 2:
                # stuck at the bound: nothing new can happen any more
                raise _Stop()
            return a * x + b
        try:
            r = newton_with_kwargs(
                lambda **k: a, t, val0=x0, valmin=lo, valmax=hi,
                function=f, parameter="x")
        except _Stop:
            ctx.true("search-goes-on", True)
            return
        if mode == "inside":
            ctx.eq("solution", r, sol, tol=1e-6, scale=1e-3)
        else:
            # the start value already met the target within the tolerance
            ctx.true("within-bounds", (r >= lo) & (r <= hi)
                     if is_sym(r) else lo <= r <= hi)
    return Harness("newton:affine," + mode, fn, repl=nopatch,
                   bounded=None if mode == "inside" else
                   "first two iterations at the bound")


class _Stop(Exception):
    pass


def newton_any():
    """any function: if the search ends before its iteration limit, the last
    function value met the target within the tolerance; the result is one
    (relaxed) Newton step from there, inside the bounds"""
    def fn(ctx):
        from tespy.tools.helpers import newton_with_kwargs
        if ctx.mode == "conc":
            a = ctx.real("a", typ=(0.5, 2))
            t = ctx.real("target", typ=(5, 60))
            F = lambda x: a * x ** 3 + x          # noqa: E731
            D = lambda x: 3 * a * x * x + 1       # noqa: E731
            x0, lo, hi = 3.0, 0.5, 20.0
        else:
            # the step r/D is linear in r for D = 2; other derivatives and
            # targets: newton:affine
            t = ctx.choice("target", [100.0, -3.0])
            sign = ctx.choice("side", [1, -1])
            F = lambda x: ctx.fn("F", x)          # noqa: E731
            D = lambda x: 2.0                     # noqa: E731
            x0, lo, hi = ctx.real("x0"), -1e9, 1e9
        seen = []

        def f(x=None, **k):
            if ctx.mode == "sym":
                # no clamping in this contract (see newton:affine)
                ctx.assume((x >= lo) & (x <= hi))
                # approach from one side, either one
                ctx.assume(sign * (t - F(x)) >= 0)
            seen.append(x)
            return F(x)
        r = newton_with_kwargs(lambda x=None, **k: D(x), t, val0=x0,
                               valmin=lo, valmax=hi, tol_rel=1e-6,
                               function=f, parameter="x")
        n = len(seen)
        ctx.true("starts-at-start-value", seen[0] is x0)
        if n <= 12:
            res = t - F(seen[-1])
            ctx.true("converged-within-tolerance",
                     abs(res / t) < 1e-6)
            for i, x in enumerate(seen[:-1]):
                ctx.true(f"not-converged-before[{i}]",
                         abs((t - F(x)) / t) >= 1e-6)
        else:
            ctx.true("iteration-limit", n <= 14)
        ctx.true("within-bounds", (r >= lo) & (r <= hi) if is_sym(r)
                 else lo <= r <= hi)
    return Harness("newton:any-function", fn, repl=nopatch, max_paths=400,
                   time_s=40)


def newton_zero():
    """targets near zero are met absolutely"""
    def fn(ctx):
        from tespy.tools.helpers import newton_with_kwargs
        a = ctx.real("a", lo=0.5, hi=2)
        x0 = ctx.real("x0", lo=-2, hi=2)
        t = ctx.choice("t", [0.0, 1e-7])
        r = newton_with_kwargs(lambda **k: a, t, val0=x0, valmin=-9.0,
                               valmax=9.0, function=lambda x, **k: a * x,
                               parameter="x", tol_rel=1e-6)
        ctx.eq("root", a * r, t, tol=1e-9, scale=1e-3)
    return Harness("newton:zero-target", fn, repl=nopatch)


# ------------------------------------------------------------------- friction
def darcy_closed():
    def fn(ctx):
        from tespy.tools.fluid_properties.helpers import \
            darcy_friction_factor
        lim = ctx.choice("re", [(10, 2320), (2321, 9999), (10001, 999999)])
        re = ctx.real("Re", lo=10, typ=lim)
        ks = ctx.real("ks", lo=1e-7, typ=(1e-6, 2e-5))
        d = ctx.real("d", lo=1e-3, typ=(0.5, 1.5))
        ctx.assume(re > 0)
        ctx.assume(re < 1e6)
        if re > 2320:
            ctx.assume(re * ks / d < 65)
        r = darcy_friction_factor(re, ks, d)
        if re <= 2320:
            exp = 64 / re
        elif re <= 1e4:
            exp = 0.3164 * re ** (-0.25)
        else:
            lg = re.log10() if is_sym(re) else math.log10(re)
            exp = (1.8 * lg - 1.5) ** (-2)
        ctx.eq("lambda", r, exp, tol=1e-9)
    return Harness("friction:closed-forms", fn, repl=nopatch)


def darcy_iter(rough):
    """hydraulically smooth at Re >= 1e6: Prandtl-Karman; rough:
    Colebrook-White.  The search itself is contracted above."""
    def fn(ctx):
        from tespy.tools.fluid_properties import helpers as FH
        re = ctx.real("Re", lo=2321, typ=(3e5, 1e7) if rough
                      else (1e6, 5e6))
        ks = ctx.real("ks", lo=1e-7, typ=(5e-4, 2e-3) if rough
                      else (1e-6, 1e-5))
        d = ctx.real("d", lo=1e-3, typ=(0.1, 0.3) if rough else (2, 3))
        if rough:
            ctx.assume(re * ks / d >= 65)
        else:
            ctx.assume(re * ks / d < 65)
            ctx.assume(re >= 1e6)
        if ctx.mode == "conc":
            lam = FH.darcy_friction_factor(re, ks, d)
        else:
            box = []

            def newton(derivative, target, val0=None, valmin=None,
                       valmax=None, **kw):
                lam = ctx.real("lam", lo=1e-5, hi=0.2)
                kw[kw["parameter"]] = lam
                ctx.assume(kw["function"](**kw) == target)
                box.append((derivative, kw))
                return lam
            orig = FH.newton_with_kwargs
            FH.newton_with_kwargs = newton
            try:
                lam = FH.darcy_friction_factor(re, ks, d)
            finally:
                FH.newton_with_kwargs = orig
            ctx.true("iterative", len(box) == 1)

        def lg(x):
            return x.log10() if is_sym(x) else math.log10(x)
        if rough:
            ctx.eq("Colebrook-White", 1 / lam ** 0.5, -2 * lg(
                2.51 / (re * lam ** 0.5) + ks / (3.71 * d)), tol=1e-5)
        else:
            ctx.eq("Prandtl-Karman", 1 / lam ** 0.5,
                   2 * lg(re * lam ** 0.5) - 0.8, tol=1e-5)
    return Harness("friction:" + ("rough" if rough else "smooth"), fn,
                   repl=nopatch, conc=8)


def pk_deriv():
    def fn(ctx):
        from tespy.tools.fluid_properties.helpers import (
            prandtl_karman, prandtl_karman_derivative)
        re = ctx.real("Re", lo=1e6, typ=(1e6, 1e7))
        lam = ctx.real("lam", lo=1e-4, typ=(0.005, 0.1))
        d = prandtl_karman_derivative(re, lam)
        if ctx.mode == "sym":
            f = prandtl_karman(re, lam)
            ctx.eq("derivative", d, ctx.diff(f, lam))
        else:
            e = 1e-6
            fd = (prandtl_karman(re, lam + e) -
                  prandtl_karman(re, lam - e)) / (2 * e)
            ctx.eq("derivative", d, fd, tol=1e-4)
    return Harness("friction:Prandtl-Karman-derivative", fn, repl=nopatch)


# -------------------------------------------- inversion of mixture functions
def inverse():
    """T with f(p, T) = target for f affine in T between the temperature
    limits of the fluids in the mixture"""
    def fn(ctx):
        from tespy.tools.fluid_properties.helpers import \
            inverse_temperature_mixture

        class W:
            def __init__(self, lo, hi):
                self._T_min, self._T_max = lo, hi
        fd = {"A": {"wrapper": W(200.0, 900.0), "mass_fraction": 0.4},
              "B": {"wrapper": W(250.0, 1500.0), "mass_fraction": 0.6},
              "C": {"wrapper": W(700.0, 800.0), "mass_fraction": 0.0}}
        a = ctx.real("a", typ=(0.5, 3))
        b = ctx.real("b", typ=(-3, 3))
        p = ctx.real("p", typ=(1, 3))
        t = ctx.real("target", typ=(800, 900))
        ctx.assume(a != 0)
        sol = (t - b * p) / a
        ctx.assume(sol > 251)
        ctx.assume(sol < 1700)
        start = ctx.choice("T0", [None, 300.0, 0, float("nan")])

        def f(p=None, T=None, fluid_data=None, **k):
            return a * T + b * p
        r = inverse_temperature_mixture(p=p, target_value=t, fluid_data=fd,
                                        T0=start, f=f)
        ctx.eq("solution", r, sol, tol=1e-6)
    return Harness("inverse:temperature", fn, repl=nopatch)


def harnesses(tier):
    out = [nd_conn(q, d) for q in ("m", "p", "h") for d in (1, 2)]
    out += [nd_comp(d) for d in (1, 2)]
    out += [nd_fluid(w) for w in ("inner", "zero", "one")]
    out += [nd_wrong()]
    out += [fdiff(*d) for d in DIFFS] + [fdiff_fluid(), central()]
    out += [newton_affine(m) for m in ("inside", "above", "below")]
    out += [newton_any(), newton_zero()]
    out += [darcy_closed(), darcy_iter(False), darcy_iter(True), pk_deriv()]
    out += [inverse()]
    return out
