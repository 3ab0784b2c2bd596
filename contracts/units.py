"""C05: user units and SI values."""
import numpy as np
import pandas as pd

from vc import patch as P
from vc.bench import Bench
from vc.fluid import FakeWrapper
from vc.runner import Harness

# oracle: value of one unit in SI (offset, factor): SI = (x + offset) * factor
ORACLE = {
    "m": {"kg / s": 1, "kg / min": 1 / 60, "kg / h": 1 / 3600,
          "t / h": 1000 / 3600, "g / s": 1e-3},
    "v": {"m3 / s": 1, "m3 / min": 1 / 60, "m3 / h": 1 / 3600,
          "l / s": 1e-3, "l / min": 1e-3 / 60, "l / h": 1e-3 / 3600},
    "p": {"Pa": 1, "kPa": 1e3, "psi": 6894.8, "bar": 1e5, "atm": 101325,
          "MPa": 1e6},
    "h": {"J / kg": 1, "kJ / kg": 1e3, "MJ / kg": 1e6, "cal / kg": 4.184,
          "kcal / kg": 4184, "Wh / kg": 3600, "kWh / kg": 3.6e6},
    "T": {"K": (0, 1), "R": (0, 5 / 9), "C": (273.15, 1),
          "F": (459.67, 5 / 9)},
    "Td_bp": {"K": 1, "R": 5 / 9, "C": 1, "F": 5 / 9},
    "vol": {"m3 / kg": 1, "l / kg": 1e-3},
    "x": {"-": 1, "%": 0.01, "ppm": 1e-6},
    "s": {"J / kgK": 1, "kJ / kgK": 1e3, "MJ / kgK": 1e6},
}
SI = {"m": "kg / s", "v": "m3 / s", "p": "Pa", "h": "J / kg", "T": "K",
      "Td_bp": "K", "vol": "m3 / kg", "x": "-", "s": "J / kgK"}


def si(prop, val, unit):
    o = ORACLE[prop][unit]
    if isinstance(o, tuple):
        return (val + o[0]) * o[1]
    return val * o


def pairs():
    return [(p, u) for p, us in ORACLE.items() for u in us]


def repl():
    return P.fluid_repl()


def convert(prop, unit):
    def fn(ctx):
        from tespy.tools.helpers import convert_from_SI, convert_to_SI
        x = ctx.real("x", typ=(1, 50))
        y = convert_to_SI(prop, x, unit)
        ctx.eq("to-SI", y, si(prop, x, unit), tol=1e-9)
        ctx.eq("from-SI(to-SI)", convert_from_SI(prop, y, unit), x, tol=1e-9)
        z = ctx.real("z", typ=(300, 500))
        b = convert_from_SI(prop, z, unit)
        ctx.eq("to-SI(from-SI)", convert_to_SI(prop, b, unit), z, tol=1e-9)
        w = ctx.real("w", typ=(1, 50))
        ctx.implies("order-preserving", x < w, y < convert_to_SI(
            prop, w, unit))
    return Harness(f"convert:{prop}[{unit}]", fn, conc=3)


def tables():
    def fn(ctx):
        from tespy.networks import Network
        from tespy.tools.global_vars import fluid_property_data as fpd
        ctx.true("properties", set(fpd) == set(ORACLE))
        nw = Network()
        for prop, us in ORACLE.items():
            ctx.true(f"units-of-{prop}", set(fpd[prop]["units"]) == set(us))
            ctx.true(f"default-unit-is-SI[{prop}]",
                     getattr(nw, prop + "_unit") == SI[prop])
    return Harness("unit-tables", fn, conc=1,
                   bounded="finite tables, enumerated completely")


def net(ctx, n=1, units=None):
    from tespy.components import Sink, Source
    from tespy.connections import Connection
    from tespy.networks import Network
    nw = Network(iterinfo=False)
    if units:
        nw.set_attr(**units)
    cs = []
    for i in range(n):
        c = Connection(Source(f"so{i}"), "out1", Sink(f"si{i}"), "in1",
                       label=f"c{i}")
        c.fluid.val["H2O"] = 1
        c.fluid.wrapper["H2O"] = FakeWrapper("H2O")
        c.fluid.engine["H2O"] = FakeWrapper
        c.fluid.back_end["H2O"] = None
        c.build_fluid_data()
        cs.append(c)
    nw.add_conns(*cs)
    nw.init_previous = True
    return nw, cs


def units_for(prop, unit):
    k = "T_unit" if prop == "Td_bp" else prop + "_unit"
    return {k: unit}


def ranges(prop, unit):
    def fn(ctx):
        nw, _ = net(ctx, 0)
        lo, hi = ctx.real("lo", typ=(0.1, 1)), ctx.real("hi", typ=(2, 9))
        nw.set_attr(**{prop + "_unit": unit, prop + "_range": [lo, hi]})
        for k, x in enumerate((lo, hi)):
            ctx.eq(f"range_SI[{k}]", getattr(nw, prop + "_range_SI")[k],
                   si(prop, x, unit), tol=1e-9)
            ctx.eq(f"range[{k}]", getattr(nw, prop + "_range")[k], x,
                   tol=1e-9)
        # a later change of the unit restates the same limits
        u2 = list(ORACLE[prop])[-1]
        nw.set_attr(**{prop + "_unit": u2})
        for k, x in enumerate((lo, hi)):
            ctx.eq(f"later:range_SI[{k}]",
                   getattr(nw, prop + "_range_SI")[k], si(prop, x, unit),
                   tol=1e-9)
            ctx.eq(f"later:range[{k}]", si(
                prop, getattr(nw, prop + "_range")[k], u2),
                si(prop, x, unit), tol=1e-9)
        for q in ("m", "p", "h"):
            if q != prop:
                ctx.true("other-units-untouched",
                         getattr(nw, q + "_unit") == SI[q])
    return Harness(f"range:{prop}[{unit}]", fn)


def specs(prop, unit):
    """init_set_properties: a specified value means that value in the unit
    of the network; referenced differences are differences."""
    def fn(ctx):
        from tespy.connections import Ref
        nw, (c, d) = net(ctx, 2, units_for(prop, unit))
        x = ctx.real("x", typ=(1, 50))
        c.set_attr(**{prop: x})
        ref = None
        if prop in ("m", "p", "h", "T", "v"):
            f = ctx.real("factor", typ=(0.5, 2))
            dl = ctx.real("delta", typ=(-5, 5))
            ref = Ref(c, 1, 0)
            ref.factor, ref.delta = f, dl
            d.set_attr(**{prop: ref})
        nw.init_set_properties()
        ctx.eq("val_SI", c.get_attr(prop).val_SI, si(prop, x, unit),
               tol=1e-9)
        ctx.true("val-kept", c.get_attr(prop).val is x)
        for k in SI:
            u = unit if units_for(k, unit) == units_for(prop, unit) \
                else SI[k]
            ctx.true(f"unit-of-{k}", c.get_attr(k).unit == u)
        if ref is not None:
            q = "Td_bp" if prop == "T" else prop
            ctx.eq("delta_SI", ref.delta_SI, si(q, dl, unit), tol=1e-9)
            ctx.true("factor-has-no-unit", ref.factor is f)
        # other properties are not invented
        for k in SI:
            if k != prop:
                ctx.true(f"not-set-{k}", not c.get_attr(k).is_set)
    return Harness(f"spec:{prop}[{unit}]", fn, repl=repl)


def start(prop, unit):
    """init_properties: starting values are in user units; what was
    calculated before is found again."""
    def fn(ctx):
        nw, (c, d) = net(ctx, 2, units_for(prop, unit))
        nw.init_path = None
        nw.num_conn_eq = 0
        nw.init_set_properties()
        x = ctx.real("x0", typ=(1, 50))
        for k in (c, d):
            k.good_starting_values = True
            for q in ("m", "p", "h"):
                k.get_attr(q).val0 = 1.0
                k.get_attr(q).val_SI = 7.0
            k.num_eq = 0
        c.set_attr(**{prop + "0": x})
        dat = d.get_attr(prop)
        fixed = ctx.real("fixed", typ=(1, 50))
        dat.is_var = False
        dat.val_SI = fixed
        nw.init_properties()
        ctx.eq("start-in-SI", c.get_attr(prop).val_SI, si(prop, x, unit),
               tol=1e-9)
        ctx.true("fixed-value-kept", dat.val_SI is fixed)
        # solution, post-processing, next start
        c.calc_results()
        v = c.get_attr(prop).val_SI
        nw.init_properties()
        ctx.eq("restart-from-solution", c.get_attr(prop).val_SI, v,
               tol=1e-9)
    return Harness(f"start:{prop}[{unit}]", fn, repl=repl)


def guess(prop, unit):
    """generic starting values come in SI from the components"""
    def fn(ctx):
        nw, (c,) = net(ctx, 1, units_for(prop, unit))
        nw.init_set_properties()
        a = ctx.real("vs", lo=1, typ=(1e5, 2e5))
        b = ctx.real("vt", lo=1, typ=(1e5, 2e5))
        za = ctx.choice("za", [True, False])
        zb = ctx.choice("zb", [True, False])
        c.source.initialise_source = lambda *_: 0 if za else a
        c.target.initialise_target = lambda *_: 0 if zb else b
        nw.init_val0(c, prop)
        v = si(prop, c.get_attr(prop).val0, unit)
        if za and zb:
            exp = 1e5 if prop == "p" else 1e6
        elif za:
            exp = b
        elif zb:
            exp = a
        else:
            exp = (a + b) / 2
        ctx.eq("guess", v, exp, tol=1e-9)
        u = ctx.real("user", typ=(1, 9))
        c.get_attr(prop).val0 = u
        nw.init_val0(c, prop)
        ctx.true("user-guess-kept", c.get_attr(prop).val0 is u)
    return Harness(f"guess:{prop}[{unit}]", fn)


def row(ctx, units):
    """a line of connections.csv"""
    vals, cols = {}, {}
    for k in SI:
        vals[k] = ctx.real("file." + k, lo=0, strict=True, typ=(1, 50))
        cols[k] = vals[k]
        cols[k + "_unit"] = units[k]
    cols["H2O"] = ctx.real("file.H2O", typ=(0, 1))
    df = pd.DataFrame([cols], index=["c0"], dtype=object)
    return vals, cols, df


def design(k):
    def fn(ctx):
        us = {p: list(u)[k % len(u)] for p, u in ORACLE.items()}
        us["Td_bp"] = us["T"]
        nw, (c,) = net(ctx, 1, {"p_unit": "bar", "T_unit": "C"})
        nw.init_set_properties()
        vals, cols, df = row(ctx, us)
        nw.init_conn_design_params(c, df)
        for q in SI:
            if q == "vol":
                continue
            ctx.eq(f"design:{q}", c.get_attr(q).design,
                   si(q, vals[q], us[q]), tol=1e-9)
        ctx.eq("design:vol", c.vol.design,
               si("v", vals["v"], us["v"]) / si("m", vals["m"], us["m"]),
               tol=1e-9)
        ctx.eq("design:fluid", c.fluid.design["H2O"], cols["H2O"])
    return Harness(f"design-file[{k}]", fn, repl=repl)


def initfile(k):
    """starting values from a file that was written in other units"""
    def fn(ctx):
        us = {p: list(u)[k % len(u)] for p, u in ORACLE.items()}
        us["Td_bp"] = us["T"]
        nw, (c,) = net(ctx, 1, {"p_unit": "bar", "h_unit": "kJ / kg",
                                "m_unit": "t / h"})
        p = ctx.real("p", typ=(1, 50))
        nw.init_set_properties()
        c.fluid.is_var = {"H2O"}
        c.good_starting_values = False
        vals, cols, df = row(ctx, us)
        nw.init_conn_params_from_path(c, df)
        from tespy.tools.helpers import convert_to_SI
        for q, u in (("m", "t / h"), ("p", "bar"), ("h", "kJ / kg")):
            d = c.get_attr(q)
            ctx.eq(f"start:{q}", convert_to_SI(q, d.val0, d.unit),
                   si(q, vals[q], us[q]), tol=1e-9)
            ctx.true(f"network-unit-kept:{q}", d.unit == u)
        ctx.eq("fluid", c.fluid.val["H2O"], cols["H2O"])
        ctx.eq("fluid0", c.fluid.val0["H2O"], cols["H2O"])
        ctx.true("good", c.good_starting_values)
    return Harness(f"init-file[{k}]", fn, repl=repl)


def dp(cls, unit):
    def fn(ctx):
        n = 1 if cls != "Desuperheater" else 1
        b = Bench(ctx, cls, share={0: 0, 1: 1}, flags=True)
        for c in b.conns:
            c.p.unit = unit
        xs = {}
        for k in ("dp1", "dp2"):
            xs[k] = ctx.real(k, typ=(0.1, 0.5))
            b.comp.get_attr(k).val = xs[k]
            b.comp.get_attr(k).is_set = True
        b.comp.preprocess(b.ncols)
        for k in xs:
            ctx.eq(f"{k}.val_SI", b.comp.get_attr(k).val_SI,
                   si("p", xs[k], unit), tol=1e-9)
    return Harness(f"dp:{cls}[{unit}]", fn, repl=repl)


def tamb(cls, unit):
    def fn(ctx):
        b = Bench(ctx, cls, share={0: 0}, flags=True)
        for c in b.conns:
            c.T.unit = unit
        x = ctx.real("Tamb", typ=(1, 50))
        b.comp.Tamb.val = x
        b.comp.preprocess(b.ncols)
        ctx.eq("Tamb.val_SI", b.comp.Tamb.val_SI, si("T", x, unit),
               tol=1e-9)
    return Harness(f"Tamb:{cls}[{unit}]", fn, repl=repl)


def results(prop, unit):
    def fn(ctx):
        nw, (c,) = net(ctx, 1, units_for(prop, unit))
        nw.init_set_properties()
        for q in ("m", "p", "h"):
            c.get_attr(q).val_SI = ctx.real(q, lo=1e-3, typ={
                "m": (1, 5), "p": (1e5, 1e6), "h": (2e5, 5e5)}[q])
        c.calc_results()
        d = c.get_attr(prop)
        ctx.eq("reported", si(prop, d.val, unit), d.val_SI, tol=1e-9)
        ctx.true("unit", d.unit == unit)
    return Harness(f"report:{prop}[{unit}]", fn, repl=repl)


def harnesses(tier):
    out = [convert(p, u) for p, u in pairs()] + [tables()]
    out += [ranges(p, u) for p, u in pairs() if p in ("m", "p", "h")]
    out += [specs(p, u) for p, u in pairs() if p not in ("vol", "s")]
    out += [start(p, u) for p, u in pairs() if p in ("m", "p", "h")]
    out += [guess(p, u) for p, u in pairs() if p in ("p", "h")]
    out += [design(k) for k in range(7)]
    out += [initfile(k) for k in range(7)]
    out += [dp(c, u) for c in ("HeatExchanger", "Condenser", "Desuperheater")
            for u in ORACLE["p"]]
    out += [tamb(c, u) for c in ("SimpleHeatExchanger", "Pipe",
                                 "SolarCollector", "ParabolicTrough")
            for u in ORACLE["T"]]
    out += [results(p, u) for p, u in pairs()]
    return out
