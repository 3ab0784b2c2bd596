"""C04: connection specifications and connection results."""
import itertools
import math

import numpy as np

from vc import patch as P
from vc.bench import Bench
from vc.runner import Harness

from .equations import T, W, h, m, p
from .jacobian import repl
from .residual import align, same

FL2 = ("H2O", "N2")
STEPS = {"m": 1e-4, "p": 5.0, "h": 5.0, "x": 1e-4}


def vol(c):
    if len(c.fluid_data) > 1:
        import tespy.tools.fluid_properties.functions as F
        return F.v_mix_ph(p(c), h(c), c.fluid_data, c.mixing_rule, T0=350.0)
    return 1 / W(c).d_ph(p(c), h(c))


def ent(c):
    if len(c.fluid_data) > 1:
        import tespy.tools.fluid_properties.functions as F
        return F.s_mix_ph(p(c), h(c), c.fluid_data, c.mixing_rule, T0=350.0)
    return W(c).s_ph(p(c), h(c))


def Tsat(c):
    return W(c).T_sat(p(c))


def mk(ctx, alias, fluids, fluid_vars):
    return Bench(ctx, "CycleCloser", share={0: 0} if alias else {},
                 fluids=fluids, fluid_vars=fluid_vars, flags=True,
                 start_concrete=True,
                 typ={"i0.x[H2O]": (0.55, 0.6), "o0.x[H2O]": (0.55, 0.6),
                      "i0.x[N2]": (0.4, 0.45), "o0.x[N2]": (0.4, 0.45)})


def ref_of(b, prop, factor=None, delta=None):
    from tespy.connections import Ref
    c, r = b.inl[0], b.outl[0]
    ref = Ref(r, 1.0, 0.0)
    ref.factor = b.ctx.real("ref.factor", typ=(0.5, 1.5))
    ref.delta_SI = b.ctx.real("ref.delta", typ=(-10, 10))
    d = c.get_attr(prop + "_ref")
    d.ref = ref
    d.is_set = True
    return ref


def setval(b, prop, typ):
    d = b.inl[0].get_attr(prop)
    d.is_set = True
    d.val_SI = b.ctx.real("spec." + prop, typ=typ)
    return d.val_SI


SPECS = []


def S(name, setup, spec, fluids=("H2O",), alias=False, fv=False, tol=2e-3,
      complete_x=True):
    SPECS.append((name, setup, spec, fluids, alias, fv, tol, complete_x))


for nm, fl, fv in (("", ("H2O",), False), ("[mixture]", FL2, True)):
    S("T" + nm, lambda b: setval(b, "T", (300, 400)),
      lambda b, x: [T(b.inl[0]) - x], fl, fv=fv)
    S("v" + nm, lambda b: setval(b, "v", (0.01, 0.1)),
      lambda b, x: [m(b.inl[0]) * vol(b.inl[0]) - x], fl, fv=fv,
      complete_x=False)
    for al in ((False, True)):
        a = "[same branch]" if al else ""
        S("T_ref" + nm + a, lambda b: ref_of(b, "T"),
          lambda b, r: [T(b.inl[0]) - (T(b.outl[0]) * r.factor +
                                       r.delta_SI)], fl, alias=al, fv=fv)
        S("v_ref" + nm + a, lambda b: ref_of(b, "v"),
          lambda b, r: [m(b.inl[0]) * vol(b.inl[0]) - (
              m(b.outl[0]) * vol(b.outl[0]) * r.factor + r.delta_SI)], fl,
          alias=al, fv=fv, complete_x=False)
S("x", lambda b: setval(b, "x", (0, 1)),
  lambda b, x: [h(b.inl[0]) - W(b.inl[0]).h_pQ(p(b.inl[0]), x)])
S("Td_bp", lambda b: setval(b, "Td_bp", (5, 20)),
  lambda b, x: [T(b.inl[0]) - Tsat(b.inl[0]) - x])
for q in ("m", "p", "h"):
    S(q + "_ref", lambda b, q=q: ref_of(b, q),
      lambda b, r, q=q: [b.inl[0].get_attr(q).val_SI -
                         (b.outl[0].get_attr(q).val_SI * r.factor +
                          r.delta_SI)])


def fb(b):
    b.inl[0].fluid_balance.is_set = True
    b.inl[0].fluid.is_set = set()


S("fluid_balance", fb, lambda b, _: [
    1 - sum(b.inl[0].fluid.val.values())], FL2, fv=True)


def fb2(b):
    b.inl[0].fluid_balance.is_set = True
    b.inl[0].fluid.is_set = {"N2"}
    b.inl[0].fluid.is_var = {"H2O"}
    b.vars = [v for v in b.vars if v["name"] != "i0.x[N2]"]


S("fluid_balance[one set]", fb2, lambda b, _: [
    1 - sum(b.inl[0].fluid.val.values())], FL2, fv=True)


def two(b):
    return setval(b, "T", (300, 400)), setval(b, "v", (0.01, 0.1)), \
        ref_of(b, "m"), ref_of(b, "p")


S("T+v+m_ref+p_ref", two, lambda b, s: [
    T(b.inl[0]) - s[0], m(b.inl[0]) * vol(b.inl[0]) - s[1],
    m(b.inl[0]) - (m(b.outl[0]) * s[2].factor + s[2].delta_SI),
    p(b.inl[0]) - (p(b.outl[0]) * s[3].factor + s[3].delta_SI)])


def put(b, v, x):
    if v["kind"] == "x":
        v["dc"].val[v["fluid"]] = x
        for c in b.conns:
            c.build_fluid_data()
    else:
        v["dc"].val_SI = x


def spec_harness(entry):
    name, setup, spec, fluids, alias, fv, tol, complete_x = entry

    def fn(ctx):
        b = mk(ctx, alias, fluids, fv)
        s = setup(b)
        c = b.inl[0]
        c.preprocess()
        # earlier iteration at another state, then an arbitrary state
        filt = np.zeros(b.ncols + 5, dtype=bool)
        c.solve(filt)
        T0 = {k.label: k.T.val_SI for k in b.conns}
        b.set_state("'")
        if c.T.is_set:      # specified values are not overwritten
            c.T.val_SI = T0[c.label]
        c.it = 1
        c.solve(filt)
        exp = spec(b, s)
        res = list(c.residual)
        jac = dict(c.jacobian)
        ctx.true(f"{name}:number-of-equations", len(res) == len(exp))
        scale = 1.0 if ctx.mode == "conc" else None
        if len(res) == len(exp):
            exp = [exp[j] for j in align(ctx, res, exp, 1e-6, scale)]
        for k, (r, x) in enumerate(zip(res, exp)):
            same(ctx, f"{name}:residual[{k}]", r, x, tol=1e-6, scale=scale)
        cols = {v["col"] for v in b.vars}
        ctx.true(f"{name}:entries-in-range", all(
            k[0] < len(res) and k[1] in cols for k in jac))
        for v in b.vars:
            if ctx.mode == "conc":
                acc = 0
                d = STEPS[v["kind"]]
                for kk, w in ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)):
                    put(b, v, v["val"] + kk * d)
                    c.solve(filt)
                    acc = acc + w * np.array(c.residual, dtype=float)
                put(b, v, v["val"])
                fd = acc / (12 * d)
            for k in range(len(res)):
                e = jac.get((k, v["col"]))
                if e is None and v["kind"] == "x" and not complete_x:
                    continue
                e = 0.0 if e is None else e
                n = f"{name}:d[{k}]/d({v['name']})"
                if ctx.mode == "sym":
                    ctx.eq(n, e, ctx.diff(res[k], v["val"]))
                else:
                    ctx.eq(n, e, fd[k], tol=tol, scale=max(
                        1e-9, abs(exp[k]) * 1e-3 /
                        max(abs(v["val"]), 1e-9)))
    return Harness("spec:" + name, fn, repl=repl)


# -------------------------------------------- simplification of full states
def simplify(which):
    def fn(ctx):
        b = mk(ctx, False, ("H2O",), False)
        b.set_state("'")
        c = b.inl[0]
        for q in ("m", "p", "h"):
            c.get_attr(q).is_set = False
        unit = ctx.choice("unit", ["K", "F"])
        c.Td_bp.unit = unit
        if "p" in which:
            c.p.is_set = True
        if "T" in which:
            t = setval(b, "T", (300, 400))
        if "x" in which:
            x = setval(b, "x", (0.1, 0.9))
        if "d" in which:
            d = ctx.real("Td", typ=(1, 20))
            c.Td_bp.is_set = True
            c.Td_bp.val = d
            c.Td_bp.val_SI = d * (1 if unit == "K" else 5 / 9)
        p0, h0 = p(c), h(c)
        c.simplify_specifications()
        w = W(c)
        if which == "pT":
            ctx.eq("pT:h", h(c), w.h_pT(p0, t))
        elif which == "px":
            ctx.eq("px:h", h(c), w.h_pQ(p0, x))
        elif which == "pd":
            ctx.eq("pTd:h", h(c), w.h_pT(p0, w.T_sat(p0) + c.Td_bp.val_SI))
        elif which == "Tx":
            ctx.eq("Tx:p", p(c), w.p_sat(t))
            ctx.eq("Tx:h", h(c), w.h_pQ(w.p_sat(t), x))
        else:
            ctx.true("unchanged", h(c) is h0 and p(c) is p0)
        if which != "Tx":
            ctx.true("p-unchanged", p(c) is p0)
        solved = which in ("pT", "px", "pd", "Tx")
        c.preprocess()
        # what was solved beforehand is no equation any more
        ctx.true("equations-left", c.num_eq == (
            0 if solved else len(which.replace("p", ""))))
        n2 = len(which.replace("p", ""))
        c.preprocess()
        ctx.true("solved-mark-is-consumed", c.num_eq == n2)
    return Harness("simplify:" + (which or "none"), fn, repl=repl)


# -------------------------------------------------------------------- results
UNITS = {"m": ("kg / s", 1), "p": ("bar", 1e5), "h": ("kJ / kg", 1e3),
         "v": ("m3 / h", 1 / 3600), "vol": ("l / kg", 1e-3),
         "s": ("kJ / kgK", 1e3), "x": ("%", 0.01), "Td_bp": ("F", 5 / 9)}


def results(xset, tset):
    def fn(ctx):
        b = mk(ctx, False, ("H2O",), False)
        b.set_state("'")
        c = b.inl[0]
        for k, (u, f) in UNITS.items():
            c.get_attr(k).unit = u
        c.T.unit = "F"
        if xset:
            x = setval(b, "x", (0.1, 0.9))
        if tset:
            td = setval(b, "Td_bp", (1, 20))
        w = W(c)
        asked = []

        def phase(p, h):
            asked.append((p, h))
            return "tp"
        w.phase_ph = phase
        c.calc_results()
        ctx.true("phase-asked", len(asked) > 0)
        for a in asked:
            ctx.eq("phase-of-p", a[0], p(c))
            ctx.eq("phase-of-h", a[1], h(c))
        ctx.eq("T", c.T.val_SI, T(c))
        ctx.eq("T[F]", c.T.val, T(c) * 9 / 5 - 459.67)
        ctx.eq("vol", c.vol.val_SI, vol(c))
        ctx.eq("v", c.v.val_SI, vol(c) * m(c))
        ctx.eq("s", c.s.val_SI, ent(c))
        ctx.eq("x", c.x.val_SI, x if xset else w.Q_ph(p(c), h(c)))
        ctx.eq("Td_bp", c.Td_bp.val_SI, td if tset else T(c) - Tsat(c))
        ctx.true("phase", c.phase.val == "tp")
        for k, (u, f) in UNITS.items():
            ctx.eq(k + "[unit]", c.get_attr(k).val,
                   c.get_attr(k).val_SI / f)
        for k in ("m", "p", "h"):
            ctx.true(k + "0", c.get_attr(k).val0 is c.get_attr(k).val)
        ctx.true("fluid0", c.fluid.val0 == c.fluid.val and
                 c.fluid.val0 is not c.fluid.val)
    return Harness(f"results:pure,x{'set' if xset else 'free'},"
                   f"Td{'set' if tset else 'free'}", fn, repl=repl)


def results_error(which):
    """a property the back end refuses is nan, and only that one"""
    def fn(ctx):
        b = mk(ctx, False, ("H2O",), False)
        b.set_state("'")
        c = b.inl[0]
        w = W(c)

        def boom(*a):
            raise ValueError("out of range")
        if which == "x":
            w.Q_ph = boom
        elif which == "Td_bp":
            w.T_sat = boom
        else:
            w.phase_ph = boom
        c.calc_results()

        def nan(v):
            return isinstance(v, float) and v != v
        ctx.true("x", nan(c.x.val_SI) == (which == "x"))
        ctx.true("Td_bp", nan(c.Td_bp.val_SI) == (which == "Td_bp"))
        ctx.true("phase", nan(c.phase.val) == (which == "phase"))
        ctx.eq("T", c.T.val_SI, T(c))
        ctx.eq("v", c.v.val_SI, vol(c) * m(c))
        ctx.eq("s", c.s.val_SI, ent(c))
    return Harness("results:no-" + which, fn, repl=repl)


def results_mix():
    def fn(ctx):
        b = mk(ctx, False, FL2, True)
        b.set_state("'")
        c = b.inl[0]
        for x in c.fluid.val.values():
            ctx.assume(x > 1e-3)
        # values of an earlier calculation with a pure fluid
        c.x.val_SI = ctx.real("x-before", typ=(0, 1))
        c.Td_bp.val_SI = ctx.real("Td_bp-before", typ=(-9, 9))
        c.phase.val = "tp"
        c.calc_results()
        for k in ("x", "Td_bp"):
            d = c.get_attr(k)
            for q in (d.val_SI, d.val):
                ctx.true(f"no {k} of a mixture", isinstance(q, float) and
                         math.isnan(q))
        ctx.true("no phase of a mixture", c.phase.val != c.phase.val)
        if ctx.mode == "sym":
            import tespy.tools.fluid_properties.functions as F
            tt = F.T_mix_ph(p(c), h(c), c.fluid_data, c.mixing_rule)
            hb = F.h_mix_pT(p(c), tt, c.fluid_data, c.mixing_rule)
            d = hb - h(c)
            bad = abs(d) > 1e-3 and abs(d / h(c)) > 1e-3
        else:
            bad = False
        nan = [isinstance(q.val_SI, float) and math.isnan(q.val_SI)
               for q in (c.T, c.vol, c.v, c.s)]
        if bad:
            ctx.true("inconsistent-is-nan", all(nan))
        else:
            ctx.true("consistent-is-reported", not any(nan))
            ctx.eq("T", c.T.val_SI, T(c))
            ctx.eq("vol", c.vol.val_SI, vol(c))
            ctx.eq("v", c.v.val_SI, vol(c) * m(c))
            ctx.eq("s", c.s.val_SI, ent(c))
    return Harness("results:mixture", fn, repl=repl, conc=2)


def results_kept(fluids, which):
    """a specified temperature or volumetric flow is not replaced by the
    result"""
    def fn(ctx):
        b = mk(ctx, False, fluids, True)
        b.set_state("'")
        c = b.inl[0]
        for x in c.fluid.val.values():
            ctx.assume(x > 1e-3)
        c.T.unit, c.v.unit = "C", "l / s"
        lim = {"T": (280, 400), "v": (1e-3, 5)}
        given = {k: setval(b, k, lim[k]) for k in which}
        c.calc_results()
        for k in ("T", "v"):
            d = c.get_attr(k)
            if k in given:
                ctx.eq(f"kept[{k}]", d.val, given[k] - 273.15
                       if k == "T" else given[k] * 1e3)
                ctx.true(f"set[{k}]", d.is_set)
            elif not (isinstance(d.val_SI, float) and
                      math.isnan(d.val_SI)):
                ctx.eq(f"free[{k}]", d.val_SI,
                       T(c) if k == "T" else vol(c) * m(c))
    return Harness(f"results:kept,{len(fluids)},{'+'.join(which)}", fn,
                   repl=repl, conc=2)


def unreachable():
    """no temperature of the mixture belongs to the enthalpy: nothing that
    depends on temperature is reported"""
    def fn(ctx):
        import tespy.tools.fluid_properties.wrappers as PW
        from tespy.components import Sink, Source
        from tespy.connections import Connection

        from . import nets
        for (hh, good), kept in itertools.product(
                ((3e5, True), (6e5, True), (1e9, False), (-1e9, False)),
                ((), ("T",), ("T", "v"))):
            c = Connection(Source("a"), "out1", Sink("b"), "in1")
            c.mixing_rule = ("ideal", "ideal-cond")[ctx.obs % 2]
            c.fluid.val = {"N2": 0.7, "O2": 0.3}
            c.fluid.wrapper = {k: PW.CoolPropWrapper(k)
                               for k in c.fluid.val}
            c.build_fluid_data()
            for k, v in (("m", 2.0), ("p", 1e5), ("h", hh)):
                c.get_attr(k).val_SI = v
            c.T.val_SI = 300.0
            for k, u in (("T", "K"), ("p", "Pa"), ("h", "J / kg"),
                         ("m", "kg / s"), ("v", "m3 / s"),
                         ("vol", "m3 / kg"), ("s", "J / kgK"), ("x", "-"),
                         ("Td_bp", "K")):
                c.get_attr(k).unit = u
            for k in ("T", "vol", "v", "s"):
                c.get_attr(k).val_SI = 300.0
            for k in kept:
                c.get_attr(k).is_set = True
            with nets.quiet():
                c.calc_results()
            for k in kept:
                ctx.eq(f"kept[{k}]", c.get_attr(k).val, 300.0)
                c.get_attr(k).is_set = False
            if kept:
                continue
            for k in ("T", "vol", "v", "s"):
                d = c.get_attr(k)
                ctx.true(f"{k}[{hh:g}]", math.isfinite(d.val_SI) == good and
                         math.isfinite(d.val) == good)
            for k, v in (("m", 2.0), ("p", 1e5), ("h", hh)):
                ctx.eq(k, c.get_attr(k).val, v)
            if good:
                ctx.eq("v", c.v.val, c.vol.val * 2, tol=1e-9)
                ctx.eq("gas", c.vol.val, 8.314462618 / 0.0290975 *
                       c.T.val / 1e5, tol=1e-2)
    return Harness("results:mixture,unreachable", fn, sym=False, conc=1,
                   bounded="one mixture, four enthalpies")


def not_available(which):
    """a property the library does not offer is nan, and only that one"""
    def fn(ctx):
        b = mk(ctx, False, ("H2O",), False)
        b.set_state("'")
        c = b.inl[0]
        w = W(c)

        def boom(*a):
            raise NotImplementedError
        for k in {"x": ["Q_ph"], "phase": ["phase_ph"], "s": ["s_ph"],
                  "Td_bp": ["T_sat"]}[which]:
            setattr(w, k, boom)
        if which != "phase":
            w.phase_ph = lambda p, h: "g"
        c.calc_results()

        def nan(v):
            return isinstance(v, float) and v != v
        for k in ("x", "Td_bp", "s", "T", "vol", "v"):
            ctx.true(k, nan(c.get_attr(k).val_SI) == (which == k))
        ctx.true("phase", nan(c.phase.val) if which == "phase" else
                 c.phase.val == "g")
        ctx.eq("v", c.v.val_SI, vol(c) * m(c))
        if which != "s":
            ctx.eq("s", c.s.val_SI, ent(c))
    return Harness("results:not-available-" + which, fn, repl=repl)


def harnesses(tier):
    out = [spec_harness(e) for e in SPECS]
    out += [simplify(w) for w in ("pT", "px", "pd", "Tx", "T", "x", "d",
                                  "p", "")]
    out += [results(a, b) for a in (False, True) for b in (False, True)]
    out += [results_error(w) for w in ("x", "Td_bp", "phase")]
    out += [results_mix(), unreachable()]
    out += [results_kept(f, w) for f in (("H2O",), FL2)
            for w in (("T",), ("v",), ("T", "v"))]
    out += [not_available(w) for w in ("x", "Td_bp", "phase", "s")]
    return out
