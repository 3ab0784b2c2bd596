"""C08: busses."""
import math

import numpy as np
import pandas as pd

from vc import patch as P
from vc import term as TT
from vc.bench import Bench, char_line
from vc.engine import Sym, cur, is_sym, lift
from vc.runner import Harness

from .equations import h, m
from .jacobian import repl as frepl

GAS = ("CH4", "O2", "N2", "CO2", "H2O")
XT = {"CH4": (0.05, 0.1), "O2": (0.2, 0.3), "N2": (0.3, 0.4),
      "CO2": (0.05, 0.1), "H2O": (0.1, 0.2)}
HF = {"CO2": -393.51, "H2O": -241.826, "CH4": -74.6}


def lhv(b, f="CH4"):
    w = b.inl[0].fluid.wrapper.get(f) or b.inl[-1].fluid.wrapper[f]
    return -(2 * HF["H2O"] + HF["CO2"] - HF[f]) / w._molar_mass * 1000


def dmh(k=0, sign=1):
    def f(b):
        return sign * m(b.inl[k]) * (h(b.outl[k]) - h(b.inl[k]))
    return f


def ti(sl):
    def f(b):
        i, o = b.inl[sl[0]:sl[1]], b.outl[sl[2]]
        return lhv(b) * (sum(m(c) * c.fluid.val["CH4"] for c in i) -
                         m(o) * o.fluid.val["CH4"])
    return f


TI_CC = ti((0, 2, 0))
TI_EN = ti((2, 4, 2))


def expr_P(b):
    return b.comp.P.val / b.comp.P.design


def eng_P(b):
    return -TI_EN(b) / b.comp.tiP_char.char_func.evaluate(expr_P(b))


def eng_Ql(b):
    return eng_P(b) * b.comp.Qloss_char.char_func.evaluate(expr_P(b))


def eng_setup(b):
    b.par("P", typ=(-2e6, -1e6), var=True)
    b.comp.P.design = b.ctx.real("P.design", typ=(-3e6, -2e6))
    b.ctx.assume(b.comp.P.design != 0)
    b.chars("tiP_char", "Qloss_char")
    for k in ("tiP_char", "Qloss_char"):
        b.comp.get_attr(k).is_set = False


def el_ref(c):
    """reference enthalpy at 25 degC, 1 bar"""
    return c.fluid.wrapper[next(iter(c.fluid.wrapper))].h_pT(1e5, 298.15)


def el_P(b):
    i, o = b.inl, b.outl
    return -m(i[1]) * (h(i[1]) - el_ref(i[1])) + \
        m(i[0]) * (h(o[0]) - h(i[0])) + m(o[1]) * (h(o[1]) - el_ref(o[1])) \
        + m(o[2]) * (h(o[2]) - el_ref(o[2]) + b.comp.e0)


GASB = dict(fluids=GAS, fluid_vars=True, share={}, typ={
    f"{c}.x[{f}]": r for c in ("i0", "i1", "o0", "i2", "i3", "o2")
    for f, r in XT.items()}, mixing_rule="ideal-cond")
ENG = dict(GASB, fluidsets={k: ("H2O",) for k in ("i0", "i1", "o0", "o1")},
           share={0: 0, 1: 1})
ELB = dict(share={0: 0}, fluidsets={"o1": ("O2",), "o2": ("H2",)},
           share_fluid={0: 0})
KINDS = [(c, dict(share={0: 0}), None, dmh(), None)
         for c in ("Turbine", "Pump", "Compressor", "SimpleHeatExchanger",
                   "Pipe", "SolarCollector", "ParabolicTrough")]
KINDS += [(c, dict(share={0: 0, 1: 1}), None, dmh(), None)
          for c in ("HeatExchanger", "Condenser", "Desuperheater")]
KINDS += [(c, GASB, q, TI_CC, None) for c, q in (
    ("CombustionChamber", "TI"), ("DiabaticCombustionChamber", "TI"))]
KINDS += [("CombustionEngine", ENG, q, f, eng_setup) for q, f in (
    ("TI", TI_EN), ("P", eng_P), ("Qloss", eng_Ql), ("Q1", dmh(0, -1)),
    ("Q2", dmh(1, -1)),
    ("Q", lambda b: dmh(0, -1)(b) + dmh(1, -1)(b)))]
KINDS += [("WaterElectrolyzer", ELB, q, f, lambda b: b.par(
    "P", typ=(1e6, 2e6), var=True)) for q, f in (
        ("P", el_P), ("Q", dmh(0, -1)))]


def shift(b, n):
    for v in b.vars:
        if v["col"] is None or v["kind"] == "par":
            continue
        v["col"] += n
        if v["kind"] == "x":
            v["dc"].J_col[v["fluid"]] = v["col"]
        else:
            v["dc"].J_col = v["col"]


def rename(b, pre):
    """state of a second component: symbols of its own"""
    for v in b.vars:
        if v["kind"] in "mph":
            v["val"] = v["dc"].val_SI = b.ctx.real(
                pre + v["name"], typ=b.typical(v["name"], v["kind"]))


def mkbench(ctx, kind):
    cls, kw, param, f, setup = kind
    b = Bench(ctx, cls, flags=True, **kw)
    if setup:
        setup(b)
    b.preprocess()
    return b


def mkbus(ctx, name="bus"):
    from tespy.connections import Bus
    bus = Bus(name)
    if ctx.mode == "sym":
        bus.comps = bus.comps.astype(object)
    return bus


def add(ctx, bus, b, param, base, ref, tag=""):
    ch = char_line(ctx, "bus" + tag)
    if ctx.mode == "conc":      # smooth, so that differences make sense
        ch.evaluate = lambda x: 0.95 - 0.3 / (1 + x * x)
    ch.get_domain_errors = lambda x, c: None
    bus.add_comps({"comp": b.comp, "param": param, "char": ch,
                   "base": base})
    if ctx.mode == "sym":
        bus.comps = bus.comps.astype(object)
    if ref == "known":
        r = ctx.real("P_ref" + tag, typ=(8e5, 3e6))
        ctx.assume(r != 0)
    elif ref == "zero":
        r = 0.0
    else:
        r = np.nan
    bus.comps.loc[b.comp, "P_ref"] = r
    return ch, r


def newton_contract(derivative, target_value, **kw):
    """Contract of newton_with_kwargs for the bus equation: a root of
    function, as a function of its parameters."""
    from tespy.tools import helpers as H
    if kw.get("function") is not H.bus_char_evaluation or target_value != 0:
        raise RuntimeError("unexpected use of the Newton search")
    ctx = cur()
    B = ctx.fn("busvalue." + str(id(kw["char_func"])),
               kw["component_value"], kw["reference_value"])
    ctx.data.setdefault("newton", []).append((B, kw))
    return B


def brepl():
    import tespy.tools.helpers as H
    return frepl() + [(H.newton_with_kwargs, newton_contract)]


def expected(ctx, comp, ch, ref, base, refkind):
    """the documented bus value"""
    if refkind != "known":
        c1 = ch.evaluate(1)
        return comp * c1 if base == "component" else comp / c1
    if base == "component":
        return comp * ch.evaluate(abs(comp / ref))
    if ctx.mode == "sym":
        B = ctx.fn("busvalue." + str(id(ch)), comp, ref)
        return comp / ch.evaluate(B / ref)
    B = ref                                     # bisection-free: damped
    lo, hi = comp / 50.0, comp * 50.0
    f = lambda x: x * ch.evaluate(x / ref) - comp      # noqa: E731
    if lo > hi:
        lo, hi = hi, lo
    for _ in range(200):
        mid = (lo + hi) / 2
        if (f(mid) > 0) == (f(hi) > 0):
            hi = mid
        else:
            lo = mid
    return (lo + hi) / 2


STEP = {"m": 1e-4, "p": 5.0, "h": 5.0, "x": 1e-4}


def put(b, v, x):
    if v["kind"] == "x":
        v["dc"].val[v["fluid"]] = x
        for c in b.conns:
            c.build_fluid_data()
    elif v["kind"] == "par":
        v["dc"].val = x
    else:
        v["dc"].val_SI = x


def jac_check(ctx, tag, benches, bus, row):
    """row == d bus.residual / d variables"""
    seen = {}
    for b in benches:
        for v in b.vars:
            if v["col"] in seen:
                continue
            seen[v["col"]] = v
            got = row.get(v["col"], 0)
            n = f"{tag}:d/d({v['name']}@{v['col']})"
            if ctx.mode == "sym":
                ctx.eq(n, got, ctx.diff(ctx.data["residual"], v["val"]))
                continue
            d = STEP.get(v["kind"]) or abs(v["val"]) * 1e-4
            acc = 0.0
            for k, w in ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)):
                put(b, v, v["val"] + k * d)
                bus.jacobian = {}
                bus.solve()
                acc += w * float(bus.residual)
            put(b, v, v["val"])
            ctx.eq(n, got, acc / (12 * d), tol=2e-3, scale=1e-4 * abs(
                ctx.data["scale"]) / max(abs(v["val"]), 1e-3))
    ctx.true(f"{tag}:no-other-columns", set(row) <= set(seen))


def value(kind, base, refkind):
    cls, _, param, f, _ = kind
    name = f"{cls}{'.' + param if param else ''}[{base},ref {refkind}]"

    def fn(ctx):
        b = mkbench(ctx, kind)
        bus = mkbus(ctx)
        ch, ref = add(ctx, bus, b, param, base, refkind)
        Pv = ctx.real("P", typ=(-5e5, 5e5))
        bus.P.val = Pv
        comp = f(b)
        if ctx.mode == "conc" and refkind == "known":
            # the reference value has the sign of the component value and
            # its order of magnitude
            ref = math.copysign(abs(comp) * 0.7, comp)
            bus.comps.loc[b.comp, "P_ref"] = ref
        exp = expected(ctx, comp, ch, ref, base, refkind)
        ctx.eq("component-value", b.comp.bus_func(bus.comps.loc[b.comp]),
               comp, tol=1e-9)
        ctx.eq("bus-value", b.comp.calc_bus_value(bus), exp, tol=1e-6)
        x = b.comp.calc_bus_expr(bus)
        eff = b.comp.calc_bus_efficiency(bus)
        if base == "component":
            ctx.eq("bus-value=component-value*efficiency", exp, comp * eff,
                   tol=1e-6)
        else:
            ctx.eq("component-value=bus-value*efficiency", exp * eff, comp,
                   tol=1e-6)
        if refkind == "known" and ctx.mode == "conc":
            ctx.eq("load", x, abs(comp / ref) if base == "component"
                   else exp / ref, tol=1e-6)
        if refkind != "known":
            ctx.eq("load", x, 1)
        if ctx.mode == "sym" and base == "bus" and refkind == "known":
            for B, kw in ctx.data["newton"]:
                ctx.true("newton:same-line", kw["char_func"] is ch)
                ctx.eq("newton:component-value", kw["component_value"], comp)
                ctx.eq("newton:reference-value", kw["reference_value"], ref)
        # an earlier iteration at another state must leave no trace
        bus.solve()
        bus.clear_jacobian()
        b.set_state("'")
        for v in b.vars:
            if v["kind"] == "par":
                v["val"] = v["dc"].val
        comp = f(b)
        if ctx.mode == "conc":
            ctx.data["scale"] = comp
        exp = expected(ctx, comp, ch, ref, base, refkind)
        bus.solve()
        ctx.eq("residual", bus.residual, Pv - exp, tol=1e-6,
               scale=abs(exp) if ctx.mode == "conc" else None)
        ctx.data["residual"] = bus.residual
        jac_check(ctx, "jacobian", [b], bus, dict(bus.jacobian))
    return Harness("value:" + name, fn, repl=brepl, conc=4)


def two_comps(ref):
    """two components on one bus, sharing their mass flow"""
    def fn(ctx):
        a = mkbench(ctx, KINDS[0])
        b = Bench(ctx, "Pump", flags=True, share={0: 0})
        shift(b, 100)
        rename(b, "b.")
        for v in b.vars:
            if v["kind"] == "m":
                v["col"] = a.inl[0].m.J_col
                v["val"] = a.inl[0].m.val_SI
                v["dc"] = a.inl[0].m
        for c in b.conns:
            c.m = a.inl[0].m
        b.preprocess()
        bus = mkbus(ctx)
        c1, r1 = add(ctx, bus, a, None, "component", ref, "1")
        c2, r2 = add(ctx, bus, b, None, "component", ref, "2")
        bus.P.val = Pv = ctx.real("P", typ=(-5e5, 5e5))
        other = mkbus(ctx, "other")
        add(ctx, other, a, None, "component", "none", "3")
        last = mkbus(ctx, "last")
        c4, r4 = add(ctx, last, b, None, "component", "none", "4")
        last.P.val = Pl = ctx.real("Pl", typ=(-5e5, 5e5))
        bus.P.is_set = last.P.is_set = True
        nw = network(
            num_comp_eq=2, num_conn_eq=1, residual=np.zeros(
                5, dtype=object if ctx.mode == "sym" else float),
            jacobian=np.zeros((5, 110),
                              dtype=object if ctx.mode == "sym" else float),
            busses={"other": other, "bus": bus, "last": last})
        from tespy.networks.network import Network
        Network.solve_busses(nw)
        ca, cb = dmh()(a), dmh()(b)
        e1 = expected(ctx, ca, c1, r1, "component", ref)
        e2 = expected(ctx, cb, c2, r2, "component", ref)
        ctx.eq("row[3]", nw.residual[3], Pv - e1 - e2, tol=1e-6)
        ctx.eq("row[4]", nw.residual[4], Pl - expected(
            ctx, cb, c4, r4, "component", "none"), tol=1e-6)
        for k in range(3):
            ctx.true("other-rows-untouched", not any(
                is_sym(x) or x != 0 for x in nw.jacobian[k]))
        if ctx.mode == "conc":
            ctx.data["scale"] = e1
        ctx.data["residual"] = nw.residual[3]
        row = {k: nw.jacobian[3, k] for k in range(110)
               if is_sym(nw.jacobian[3, k]) or nw.jacobian[3, k] != 0}
        # second iteration of the same system: nothing accumulates
        before = nw.jacobian.copy()
        Network.solve_busses(nw)
        for k in range(110):
            ctx.eq(f"repeatable[{k}]", nw.jacobian[3, k], before[3, k])
        jac_check(ctx, "jacobian", [a, b], bus, row)
    return Harness(f"two-components[ref {ref}]", fn, repl=brepl)


def network(**attr):
    """a network in the given situation"""
    from tespy.networks.network import Network
    nw = Network(iterinfo=False)
    nw.converged = True
    for k, v in attr.items():
        setattr(nw, k, v)
    return nw


def process(base, mode, refkind):
    def fn(ctx):
        a = mkbench(ctx, KINDS[0])
        b = Bench(ctx, "Pump", flags=True, share={0: 0})
        a.comp.label, b.comp.label = "a", "b"
        rename(b, "b.")
        b.preprocess()
        bus = mkbus(ctx)
        bases = base.split("+") * 2
        c1, r1 = add(ctx, bus, a, None, bases[0], refkind, "1")
        c2, r2 = add(ctx, bus, b, None, bases[1], refkind, "2")
        if ctx.mode == "conc" and refkind == "known":
            for k in (a, b):
                bus.comps.loc[k.comp, "P_ref"] = 0.8 * dmh()(k)
            r1, r2 = 0.8 * dmh()(a), 0.8 * dmh()(b)
        from tespy.networks.network import Network
        nw = network(
            busses={"bus": bus}, mode=mode, results={"bus": pd.DataFrame(
                columns=["component value", "bus value", "efficiency",
                         "design value"],
                dtype=object if ctx.mode == "sym" else "float64")})
        Network.process_busses(nw)
        tot = 0
        for k, ch, r, lab, own in ((a, c1, r1, "a", bases[0]),
                                    (b, c2, r2, "b", bases[1])):
            comp = dmh()(k)
            e = expected(ctx, comp, ch, r, own, refkind)
            tot = tot + e
            row = nw.results["bus"].loc[lab]
            ctx.eq(lab + ":component value", row["component value"], comp,
                   tol=1e-9)
            ctx.eq(lab + ":bus value", row["bus value"], e, tol=1e-6)
            ctx.eq(lab + ":efficiency", row["efficiency"],
                   e / comp if own == "component" else comp / e, tol=1e-6)
            if mode == "design":
                d = comp if own == "component" else e
            else:
                d = r
            got = bus.comps.loc[k.comp, "P_ref"]
            if isinstance(d, float) and d != d:
                ctx.true(lab + ":design value", got != got)
            else:
                ctx.eq(lab + ":design value", row["design value"], d,
                       tol=1e-6)
                ctx.eq(lab + ":reference", got, d, tol=1e-6)
        ctx.eq("P", bus.P.val, tot, tol=1e-6)
    return Harness(f"results[{base},{mode},ref {refkind}]", fn, repl=brepl)


def helpers():
    def fn(ctx):
        from tespy.tools.helpers import (bus_char_derivative,
                                         bus_char_evaluation)
        B, r = ctx.real("B", typ=(1e2, 1e3)), ctx.real("r", typ=(3e2, 6e2))
        c = ctx.real("c", typ=(1e2, 1e3))
        ctx.assume(r != 0)
        ch = char_line(ctx, "x")
        ctx.eq("evaluation", bus_char_evaluation(
            component_value=c, char_func=ch, reference_value=r,
            bus_value=B), B - c / ch.evaluate(B / r))
        # 1/eta affine in the load: the difference quotient is exact
        k0, k1 = ctx.real("k0", typ=(1.1, 1.2)), ctx.real("k1", typ=(
            0.1, 0.3))

        class L:
            def evaluate(self, x):
                return 1 / (k0 + k1 * x)
        ctx.eq("derivative", bus_char_derivative(
            component_value=c, char_func=L(), reference_value=r,
            bus_value=B), 1 - c * k1 / r, tol=1e-4)
    return Harness("bus-equation", fn, repl=lambda: [])


def plant():
    """several machines on two busses at design and part load"""
    def fn(ctx):
        import os
        import tempfile

        from scipy.optimize import brentq
        from tespy.connections import Bus
        from tespy.tools.characteristics import CharLine

        from . import nets
        np.random.seed(3)
        n = nets.Net()
        n.add("Source", "source")
        for k in (1, 2, 3):
            n.add("Pump", f"pump{k}", eta_s=0.6 + k / 10)
        n.add("SimpleHeatExchanger", "boiler", pr=0.95)
        n.add("Turbine", "turbine", eta_s=0.85)
        n.add("Sink", "sink")
        n.chain("source", "pump1", "pump2", "pump3", "boiler", "turbine",
                "sink")
        c = n.conn
        c["1"].set_attr(fluid={"water": 1}, m=4, p=1, T=30)
        for k, v in (("2", 5), ("3", 20), ("4", 60), ("6", 1)):
            c[k].set_attr(p=v)
        c["5"].set_attr(T=450)

        def line(a, b):
            return CharLine(x=np.array([0, 0.5, 1, 1.5]),
                            y=np.array([a - 0.2, a, b, b + 0.01]))
        power, other = Bus("power"), Bus("other")
        plan = {power: [("turbine", line(0.9, 0.97), "component", None),
                        ("pump1", line(0.8, 0.95), "bus", None),
                        ("pump2", 0.9, "bus", "P"),
                        ("pump3", 0.93, "component", None)],
                other: [("boiler", line(0.85, 0.92), "bus", None),
                        ("pump1", line(0.7, 0.9), "component", None),
                        ("turbine", 0.99, "bus", None)]}
        for b, items in plan.items():
            b.add_comps(*[{"comp": n.comp[k], "char": ch, "base": base,
                           "param": par} for k, ch, base, par in items])
        n.nw.add_busses(power, other)

        def energy(k):
            cp = n.comp[k]
            return cp.inl[0].m.val_SI * (cp.outl[0].h.val_SI -
                                         cp.inl[0].h.val_SI)
        design = {}

        def judged(tag):
            for b, items in plan.items():
                tot = 0
                for k, ch, base, _ in items:
                    e = energy(k)

                    def eff(x):
                        return np.interp(x, ch.x, ch.y) if hasattr(
                            ch, "x") else ch
                    ref = design.get((b.label, k))
                    if base == "component":
                        f = eff(1 if ref is None else abs(e / ref))
                        v = e * f
                    else:
                        if ref is None:
                            v = e / eff(1)
                        else:
                            lo, hi = sorted((e / 0.4, e / 1.05))
                            v = brentq(lambda y: y * eff(abs(y / ref)) - e,
                                       lo, hi)
                        f = e / v
                    tot += v
                    row = n.nw.results[b.label].loc[k]
                    ctx.eq(f"{tag}:{b.label}:{k}:component value",
                           row["component value"], e, tol=1e-6)
                    ctx.eq(f"{tag}:{b.label}:{k}:bus value",
                           row["bus value"], v, tol=1e-4)
                    ctx.eq(f"{tag}:{b.label}:{k}:efficiency",
                           row["efficiency"], f, tol=1e-4)
                    want = (e if base == "component" else v) \
                        if ref is None else ref
                    ctx.eq(f"{tag}:{b.label}:{k}:design value",
                           row["design value"], want, tol=1e-4)
                ctx.eq(f"{tag}:{b.label}:total", b.P.val, tot, tol=1e-4)
        nets.solve(n.nw)
        judged("design")
        for b, items in plan.items():
            for k, *_ in items:
                design[b.label, k] = float(
                    n.nw.results[b.label].loc[k, "design value"])
        with tempfile.TemporaryDirectory() as d:
            d = os.path.join(d, "design")
            with nets.quiet():
                n.nw.save(d)
            for m in (3.0, 4.4, 4.0):
                c["1"].set_attr(m=m)
                nets.solve(n.nw, "offdesign", design_path=d)
                judged(f"m={m}")
            P4 = float(power.P.val)
            # the bus value decides the mass flow
            c["1"].set_attr(m=None, m0=4)
            for f in (0.8, 1.0):
                power.set_attr(P=P4 * f)
                nets.solve(n.nw, "offdesign", design_path=d)
                ctx.true("converged", bool(n.nw.converged))
                ctx.eq("given", float(power.P.val), P4 * f, tol=1e-4)
                judged(f"P={f}")
            ctx.eq("design mass flow", c["1"].m.val_SI, 4, tol=1e-4)
    return Harness("plant", fn, sym=False, conc=1,
                   bounded="this plant, five part loads")


def adding():
    def fn(ctx):
        from tespy.components import Pump, Turbine
        from tespy.connections import Bus
        from tespy.tools.characteristics import CharLine
        bus = Bus("b")
        t, q = Turbine("t"), Pump("q")
        e = round(ctx.real("eta", typ=(0.5, 1.0)), 6)
        P = ctx.real("P", typ=(1e3, 1e6))
        ln = CharLine(x=[0, 1], y=[0.5, 1])
        bus.add_comps({"comp": t, "char": e, "base": "bus"},
                      {"comp": q, "char": ln, "param": "P", "P_ref": P})
        for x in (0.0, 0.3, 1.0, 2.5, 7.0, -1.0):
            ctx.eq("constant-efficiency",
                   bus.comps.loc[t, "char"].evaluate(x), e)
        ctx.true("given", bus.comps.loc[q, "char"] is ln and
                 bus.comps.loc[q, "param"] == "P" and
                 bus.comps.loc[q, "P_ref"] == P)
        ctx.true("base", bus.comps.loc[t, "base"] == "bus" and
                 bus.comps.loc[q, "base"] == "component")
        ctx.true("no-reference", np.isnan(bus.comps.loc[t, "P_ref"]))
        b2 = Bus("c")
        b2.add_comps({"comp": t})
        ctx.eq("default-efficiency",
               b2.comps.loc[t, "char"].evaluate(0.4), 1)
        # in any order of the entries, whatever the sign
        for base in ("bus", "component"):
            for ref in (P, -P, 0.0, 3, None):
                for par in ("TI", None):
                    for order in (1, -1):
                        b2 = Bus("c")
                        d = list({"comp": t, "char": -e, "base": base,
                                  "P_ref": ref, "param": par}.items())
                        b2.add_comps({"comp": q}, dict(d[::order]))
                        row = b2.comps.loc[t]
                        tag = f"[{base},{ref is None},{par},{order}]"
                        ctx.true("as given" + tag, row["base"] == base
                                 and (row["P_ref"] == ref if ref is not None
                                      else row["P_ref"] is None
                                      or np.isnan(row["P_ref"]))
                                 and (row["param"] is None or
                                      row["param"] != row["param"]
                                      if par is None
                                      else row["param"] == par))
                        ctx.eq("efficiency" + tag,
                               row["char"].evaluate(0.7), -e)
                        ctx.true("others" + tag, list(b2.comps.index) ==
                                 [q, t] and np.isnan(
                                     b2.comps.loc[q, "P_ref"]) and
                                 b2.comps.loc[q, "base"] == "component")
        for bad, exc in (({"comp": t, "base": "x"}, ValueError),
                         ({"comp": t, "param": 5}, TypeError),
                         ({"comp": t, "char": "x"}, TypeError),
                         ({"comp": t, "P_ref": "x"}, TypeError),
                         ({"comp": 5}, TypeError), ({}, TypeError),
                         (5, TypeError)):
            try:
                Bus("d").add_comps(bad)
                ok = False
            except exc:
                ok = True
            ctx.true(f"refused:{bad}", ok)
        bus.set_attr(P=P)
        ctx.true("P-set", bus.P.is_set and bus.P.val == P)
        bus.set_attr(P=None)
        ctx.true("P-unset", not bus.P.is_set)
        bus.set_attr(P=P)
        bus.set_attr(P=np.nan)
        ctx.true("P-unset-nan", not bus.P.is_set)
        b3 = Bus("e", P=P, printout=False)
        ctx.true("declared", b3.P.is_set and b3.P.val == P and
                 b3.printout is False and b3.label == "e" and
                 len(b3.comps) == 0)
        ctx.true("printed", bus.printout is True)
        b3.set_attr(printout=True)
        ctx.true("P-kept", b3.printout is True and b3.P.is_set and
                 b3.P.val == P and b3.get_attr("P") is b3.P)
        for bad, exc in (({"P": "x"}, TypeError), ({"P": [1]}, TypeError),
                         ({"printout": 1}, TypeError),
                         ({"printout": None}, TypeError),
                         ({"Q": 5}, KeyError)):
            try:
                b3.set_attr(**bad)
                ok = False
            except exc:
                ok = True
            ctx.true(f"refused:{bad}", ok)
            ctx.true("unchanged", b3.P.is_set and b3.P.val == P and
                     b3.printout is True)
    return Harness("adding-components", fn, sym=False, conc=3,
                   bounded="sampled values")


def harnesses(tier):
    out = [helpers(), adding()]
    for k in KINDS:
        for base in ("component", "bus"):
            for ref in ("none", "known"):
                out.append(value(k, base, ref))
    out += [value(KINDS[0], b, "zero") for b in ("component", "bus")]
    out += [two_comps(r) for r in ("none", "known")]
    out += [plant()]
    out += [process(b, md, r) for b in ("component", "bus", "bus+component")
            for md in ("design", "offdesign") for r in ("none", "known")]
    return out
