"""C17: starting values and corrections between iterations touch free
variables only, leave admissible states alone and bring others into range."""
import numpy as np
import pandas as pd

from vc.bench import UNIT, Bench
from vc.engine import is_sym
from vc.fluid import FakeWrapper
from vc.runner import Harness

from . import nets
from .jacobian import repl
from .system import conn, network

PH = ("m", "p", "h")


# ------------------------------------------------------- order and frames
def snapshot(conns):
    out = {}
    for c in conns:
        for k in PH:
            d = c.get_attr(k)
            out[c.label, k] = (d, d.val_SI, d.is_var)
        out[c.label, "x"] = (c.fluid, dict(c.fluid.val), set(c.fluid.is_var))
    return out


def frame(ctx, before, tag=""):
    """what is fixed keeps its value; the set of variables is the same"""
    for (label, k), (d, val, var) in before.items():
        name = f"{tag}{label}.{k}"
        if k == "x":
            ctx.true(name + ".variables", d.is_var == var)
            for f, v in val.items():
                if f not in var:
                    same(ctx, f"{name}[{f}].fixed", d.val.get(f), v)
            continue
        ctx.true(name + ".flag", d.is_var is var)
        if d.val_SI is val:
            ctx.true(name + ".same", True)
        elif not var:
            same(ctx, name + ".fixed", d.val_SI, val)


def untouched(ctx, before, tag=""):
    for (label, k), (d, val, var) in before.items():
        name = f"{tag}{label}.{k}.kept"
        if k == "x":
            for f, v in val.items():
                same(ctx, f"{name}[{f}]", d.val.get(f), v)
        else:
            same(ctx, name, d.val_SI, val)


def same(ctx, name, a, b):
    if a is b:
        ctx.true(name, True)
    elif is_sym(a) or is_sym(b):
        ctx.eq(name, a, b)
    else:
        ctx.true(name, a == b)


def every(cls, n, kw, fluids, share):
    """convergence_check of a component without own rules: nothing"""
    def fn(ctx):
        b = Bench(ctx, cls, dict(kw), fluids=fluids, share=share,
                  flags=True)
        for c in b.conns:
            c.good_starting_values = ctx.choice("good", [False, True])
        before = snapshot(b.conns)
        b.comp.convergence_check()
        untouched(ctx, before)
        frame(ctx, before)
    return Harness(f"no-rules:{cls}", fn, repl=repl)


def plausible(cls):
    """order of pressure and enthalpy across turbomachinery"""
    def fn(ctx):
        b = Bench(ctx, cls, {}, share={0: 0}, typ={
            "i0.p": (2e4, 2e6), "o0.p": (2e4, 2e6), "i0.h": (2e5, 3e6),
            "o0.h": (2e5, 3e6)})
        i, o = b.inl[0], b.outl[0]
        good = ctx.choice("good", [False, True])
        for c in b.conns:
            c.good_starting_values = good
        ctx.assume(i.h.val_SI > 0)
        ctx.assume(o.h.val_SI > 0)
        before = snapshot(b.conns)
        p1, p2 = i.p.val_SI, o.p.val_SI
        h1, h2 = i.h.val_SI, o.h.val_SI
        b.comp.convergence_check()
        frame(ctx, before)
        same(ctx, "mass flow", i.m.val_SI, before["i0", "m"][1])
        expand = cls in ("Turbine", "SteamTurbine")
        if expand:
            ok = [p1 > p2, h1 > h2]
            if not good:
                ok += [p1 > 1e5, h1 >= 1e6, h2 >= 5e5]
        else:
            ok = [p1 <= p2, h1 <= h2]
        if all(bool(x) for x in ok):
            untouched(ctx, before, "plausible:")
        # afterwards
        P, Q = i.p.val_SI, o.p.val_SI
        H, K = i.h.val_SI, o.h.val_SI
        ctx.true("pressure stays positive", P > 0)
        ctx.true("pressure stays positive (out)", Q > 0)
        if expand:
            if o.p.is_var:
                ctx.true("pressure falls", P > Q)
            if o.h.is_var:
                ctx.true("enthalpy falls", H > K)
        elif cls == "Compressor":
            if o.p.is_var:
                ctx.true("pressure rises", P <= Q)
            if i.p.is_var:
                ctx.true("pressure rises (in)", P <= Q)
            if o.h.is_var:
                ctx.true("enthalpy rises", H <= K)
            if i.h.is_var:
                ctx.true("enthalpy rises (in)", H <= K)
        else:
            if i.p.is_var:
                ctx.true("pressure rises (in)", P <= Q)
            if i.h.is_var:
                ctx.true("enthalpy rises (in)", H <= K)
            # one step towards the order
            if p2 < p1:
                if o.p.is_var:
                    ctx.true("outlet pressure raised", Q > p2)
            if h2 < h1:
                if o.h.is_var:
                    ctx.true("outlet enthalpy raised", K > h2)
    return Harness(f"order:{cls}", fn, repl=repl, conc=24)


def pump_curve(n):
    """mass flow within the range of the flow characteristic"""
    def fn(ctx):
        b = Bench(ctx, "Pump", {}, share={0: 0}, typ={"i0.m": (-30, 90)})
        i, o = b.inl[0], b.outl[0]
        ctx.assume(i.p.val_SI <= o.p.val_SI)
        ctx.assume(i.h.val_SI <= o.h.val_SI)
        d = b.comp.flow_char
        d.is_set = True
        xs = [ctx.real(f"x{k}", typ=(k * 0.2 - 0.1, k * 0.2))
              for k in range(n)]
        for a, c in zip(xs, xs[1:]):
            ctx.assume(a < c)
        ys = [float(k) for k in range(n)]
        if ctx.mode == "sym":
            from tespy.tools.characteristics import CharLine
            line = CharLine.__new__(CharLine)
            line.x, line.y = np.array(xs, dtype=object), np.array(ys)
        else:
            from tespy.tools.characteristics import CharLine
            line = CharLine(x=xs, y=ys)
        d.char_func = line
        before = snapshot(b.conns)
        m0 = i.m.val_SI
        vol = i.calc_vol(T0=i.T.val_SI)
        ctx.assume(vol > 0)
        b.comp.convergence_check()
        frame(ctx, before)
        V = m0 * vol
        W = i.m.val_SI * vol
        if V >= xs[0]:
            if V <= xs[-1]:
                same(ctx, "in range: kept", i.m.val_SI, m0)
        if i.m.is_var:
            ctx.true("not below the range", W >= xs[0] - 1e-9)
            ctx.true("not above the range", W <= xs[-1] + 1e-9)
        for c in b.conns:
            for k in ("p", "h"):
                same(ctx, f"{c.label}.{k}", c.get_attr(k).val_SI,
                     before[c.label, k][1])
    return Harness(f"pump-curve[{n}]", fn, repl=repl, conc=16)


GAS = ("O2", "CO2", "H2O", "N2", "Ar", "CH4")


def flame(cls, order, goods, lamb_set, gas=None):
    """combustion chamber: mass flows, flue gas and fuel; gas: the species
    of the flue gas whose fraction is arbitrary (None: flows arbitrary)"""
    def fn(ctx):
        kw = {}
        b = Bench(ctx, cls, kw, fluids=GAS, share_fluid={},
                  flags="sym" if gas is None else True,
                  typ={"o0.m": (-3, 8), "i0.m": (-3, 8), "i1.m": (-3, 8)})
        comp = b.comp
        comp.setup_reaction_parameters()
        inl, outl = comp._get_combustion_connections()
        out = outl[0]
        air, fuel = inl[order[0]], inl[order[1]]
        AIR = {"O2": 0.23, "N2": 0.75, "Ar": 0.02}
        for c in b.conns:
            c.fluid.is_var = set()
        for f in GAS:
            air.fluid.val[f] = AIR.get(f, 0)
            fuel.fluid.val[f] = 1 if f == "CH4" else 0
        var = ctx.choice("var", ["all", "main", "none"])
        out.fluid.is_var = {"all": set(GAS), "main": {"O2", "CO2", "N2"},
                            "none": set()}[var]
        for f, v in zip(GAS, (0.12, 0.05, 0.04, 0.75, 0.02, 0.02)):
            out.fluid.val[f] = v
            if gas is not None and f in gas:
                out.fluid.val[f] = ctx.real(f"x.{f}", 0, 1, typ=(0, 0.4))
        m1, m2 = inl[0].m.val_SI, inl[1].m.val_SI
        if gas is None:
            for k in inl:
                ctx.assume(abs(k.m.val_SI) > 0.1)
                ctx.assume((k.m.val_SI > 0) | k.m.is_var)
        else:
            ctx.assume(m1 > 0)
            ctx.assume(m2 > 0)
        comp.lamb.val = ctx.real("lamb", typ=(0, 4))
        comp.lamb.is_set = lamb_set
        for c, g in zip(list(inl) + [out], goods):
            c.good_starting_values = g
        before = snapshot(b.conns)
        comp.convergence_check()
        frame(ctx, before)
        others = [c for c in b.conns if c not in list(inl) + [out]]
        for c in others:
            for k in PH:
                same(ctx, f"{c.label}.{k}", c.get_attr(k).val_SI,
                     before[c.label, k][1])
        for c in b.conns:
            same(ctx, f"{c.label}.p", c.p.val_SI, before[c.label, "p"][1])
        for c in inl:
            same(ctx, f"{c.label}.h", c.h.val_SI, before[c.label, "h"][1])
            for f in GAS:
                same(ctx, f"{c.label}.x[{f}]", c.fluid.val[f],
                     before[c.label, "x"][1][f])
            m0 = before[c.label, "m"][1]
            if c.m.val_SI is m0 and (
                    c is air or lamb_set or c.good_starting_values):
                ctx.implies(f"{c.label}.m not negative", c.m.is_var,
                            m0 >= 0)
            elif c.m.is_var:
                if m0 < 0:
                    ctx.true(f"{c.label}.m positive", c.m.val_SI > 0)
                elif c is air or lamb_set or c.good_starting_values:
                    same(ctx, f"{c.label}.m kept", c.m.val_SI, m0)
        m0 = before[out.label, "m"][1]
        if out.m.is_var:
            if m0 < 0:
                ctx.true("outlet flow positive", out.m.val_SI > 0)
            else:
                same(ctx, "outlet flow kept", out.m.val_SI, m0)
        h0 = before[out.label, "h"][1]
        if out.h.is_var:
            if h0 >= 7.5e5:
                same(ctx, "outlet enthalpy kept", out.h.val_SI, h0)
            elif out.good_starting_values:
                same(ctx, "good outlet enthalpy kept", out.h.val_SI, h0)
            else:
                ctx.true("outlet enthalpy", out.h.val_SI >= 7.5e5)
        if var == "all":
            ctx.eq("mass fractions", sum(out.fluid.val.values()), 1,
                   tol=1e-9)
        for f in out.fluid.is_var if gas is not None else ():
            ctx.true(f"x[{f}] not negative", out.fluid.val[f] >= 0)
        for f in GAS:
            same(ctx, f"data[{f}]", out.fluid_data[f]["mass_fraction"],
                 out.fluid.val[f]) if f in out.fluid_data else None
    return Harness(f"flame:{cls}[{order},{goods},{lamb_set},{gas}]", fn,
                   repl=repl, conc=24, max_paths=4000, time_s=90)


# ------------------------------------------------- limits of the fluid
class Limits(FakeWrapper):
    """back end with arbitrary limits; refuses states as told"""

    def __init__(self, ctx, refuse=()):
        super().__init__("H2O")
        self.ctx, self.refuse = ctx, refuse
        self.asked = []
        self._T_min = ctx.real("Tmin", 1, typ=(180, 300))
        self._T_max = ctx.real("Tmax", 1, typ=(800, 2000))
        ctx.assume(self._T_min * 1.2 < self._T_max)
        self._p_min = ctx.real("pmin", 1, typ=(100, 1e5))
        self._p_max = ctx.real("pmax", 1, typ=(5e5, 2e6))
        ctx.assume(self._p_min + 10 < self._p_max)

    def T_ph(self, p, h):
        if "T_ph" in self.refuse:
            raise ValueError("out of range")
        return super().T_ph(p, h)

    def h_pT(self, p, T):
        n = len(self.asked)
        self.asked.append((p, T))
        if n in self.refuse:
            raise ValueError("out of range")
        if self.ctx.mode == "conc":
            return 4000.0 * (T - self.offset) + 0.05 * p
        return super().h_pT(p, T)

    def h_pQ(self, p, Q):
        if self.ctx.mode == "conc":
            return 4e5 - 4000.0 * self.offset + 500.0 + 1e6 * Q + 0.05 * p
        return super().h_pQ(p, Q)


def single(ctx, refuse=()):
    c = conn("c")
    w = Limits(ctx, refuse)
    # enthalpies of either sign
    w.offset = ctx.choice("offset", [0.0, 600.0])
    c.fluid.val = {"H2O": 1.0}
    c.fluid.wrapper = {"H2O": w}
    c.build_fluid_data()
    for k, typ in (("m", (-5, 5)), ("p", (50, 3e6)), ("h", (-3e6, 9e6))):
        d = c.get_attr(k)
        d.val_SI = ctx.real(k, 0 if k == "p" else None, strict=True, typ=typ)
        d.is_var = True
        d.unit = UNIT[k]
    for k in ("Td_bp", "T", "x", "v"):
        c.get_attr(k).unit = UNIT[k]
    return c, w


def pressure(refuse):
    def fn(ctx):
        c, w = single(ctx, ("T_ph",) if refuse else ())
        p0, m0, h0 = c.p.val_SI, c.m.val_SI, c.h.val_SI
        c.check_pressure_bounds("H2O")
        p1 = c.p.val_SI
        if p0 > w._p_max:
            ctx.true("not above maximum", p1 <= w._p_max)
            ctx.true("close to maximum", p1 >= w._p_max * 0.9)
        elif p0 < w._p_min:
            if refuse:
                ctx.true("not below minimum", p1 >= w._p_min)
                ctx.true("close to minimum", p1 <= w._p_min * 1.1 + 20)
            else:
                same(ctx, "state exists: kept", p1, p0)
        else:
            same(ctx, "kept", p1, p0)
        same(ctx, "m", c.m.val_SI, m0)
        same(ctx, "h", c.h.val_SI, h0)
    return Harness(f"limits:p[{refuse}]", fn, repl=lambda: [], conc=12)


def enthalpy(refuse, tag):
    """h between the values at the temperature limits"""
    def fn(ctx):
        c, w = single(ctx, refuse)
        p0, m0, h0 = c.p.val_SI, c.m.val_SI, c.h.val_SI
        # enthalpy rises with temperature
        if ctx.mode == "sym":
            lo = FakeWrapper.h_pT(w, p0, w._T_min * 1.05 if 0 in refuse
                                  else w._T_min + 0.1)
            t = w._T_max
            for k in range(len(refuse) - (0 in refuse)):
                t = t * 0.99
            hi = FakeWrapper.h_pT(w, p0, t)
            ctx.assume(lo < hi)
            ctx.assume(hi > 0)
            if lo < 0:
                ctx.assume(lo * 0.9999 < hi)
            else:
                ctx.assume(lo * 1.0001 < hi)
        else:
            f = lambda T: 4000.0 * (T - w.offset) + 0.05 * p0  # noqa: E731
            lo = f(w._T_min * 1.05 if 0 in refuse else w._T_min + 0.1)
            t = w._T_max
            for k in range(len(refuse) - (0 in refuse)):
                t = t * 0.99
            hi = f(t)
        c.check_enthalpy_bounds("H2O")
        h1 = c.h.val_SI
        if h0 < lo:
            ctx.true("not below minimum", h1 >= lo)
            ctx.true("close to minimum", h1 <= lo + abs(lo) * 0.01)
        elif h0 > hi:
            ctx.true("not above maximum", h1 <= hi)
            ctx.true("close to maximum", h1 >= hi - abs(hi) * 0.01)
        else:
            same(ctx, "kept", h1, h0)
        same(ctx, "m", c.m.val_SI, m0)
        same(ctx, "p", c.p.val_SI, p0)
    return Harness(f"limits:h[{tag}]", fn, repl=lambda: [], conc=16)


def phase(td, state, tset, sset):
    """the phase given by the user: degree of superheating or state"""
    def fn(ctx):
        c, w = single(ctx)
        c.Td_bp.is_set, c.state.is_set = tset, sset
        c.state.val = state
        v = ctx.real("Td", typ=(1, 50))
        ctx.assume(v > 0)
        c.Td_bp.val_SI = {1: v, 0: 0.0, -1: -v, None: np.nan}[td]
        p0, m0, h0 = c.p.val_SI, c.m.val_SI, c.h.val_SI
        if ctx.mode == "sym":
            ctx.assume(FakeWrapper.h_pQ(w, p0, 0) <
                       FakeWrapper.h_pQ(w, p0, 1))
        liq, gas = w.h_pQ(p0, 0), w.h_pQ(p0, 1)
        c.check_two_phase_bounds("H2O")
        h1 = c.h.val_SI
        want = None
        if tset and td == 1 or sset and state == "g":
            want = "g"
        if tset and td == -1 or sset and state == "l":
            want = "l" if want is None else "both"
        if want == "g":
            ctx.true("gas", h1 >= gas)
            if h0 >= gas:
                same(ctx, "gas kept", h1, h0)
            else:
                ctx.true("close", h1 <= gas + abs(gas) * 0.1 + 1)
        elif want == "l":
            ctx.true("liquid", h1 <= liq)
            if h0 <= liq:
                same(ctx, "liquid kept", h1, h0)
            else:
                ctx.true("close", h1 >= liq - abs(liq) * 0.1 - 1)
        elif want is None:
            same(ctx, "kept", h1, h0)
        same(ctx, "m", c.m.val_SI, m0)
        same(ctx, "p", c.p.val_SI, p0)
    return Harness(f"limits:phase[{td},{state},{tset},{sset}]", fn,
                   repl=lambda: [], conc=12)


def temperature():
    """mixtures: h between the values at the common temperature limits"""
    def fn(ctx):
        c = conn("c")
        fl = ("N2", "O2", "CO2")
        xs = {"N2": 0.7, "O2": 0.3, "CO2": 0.0}
        for k, f in enumerate(fl):
            c.fluid.val[f] = xs[f]
            w = c.fluid.wrapper[f] = FakeWrapper(f)
            w._T_min = ctx.real(f"Tmin.{f}", 1, typ=(100 + 50 * k, 300))
            w._T_max = ctx.real(f"Tmax.{f}", 1, typ=(900, 2000))
        c.mixing_rule = "ideal"
        c.build_fluid_data()
        for k, typ in (("m", (-5, 5)), ("p", (1e4, 3e6)),
                       ("h", (-3e6, 9e6))):
            c.get_attr(k).val_SI = ctx.real(k, 0 if k == "p" else None,
                                            strict=True, typ=typ)
        W = c.fluid.wrapper
        a, b = W["N2"]._T_min, W["O2"]._T_min
        lo = (a if a > b else b) * 1.01
        a, b = W["N2"]._T_max, W["O2"]._T_max
        hi = (a if a < b else b) * 0.99
        import tespy.tools.fluid_properties.functions as F
        h = lambda T: F.h_mix_pT(c.p.val_SI, T, c.fluid_data,  # noqa: E731
                                 "ideal")
        hlo, hhi = h(lo), h(hi)
        ctx.assume(hlo < hhi)
        m0, p0, h0 = c.m.val_SI, c.p.val_SI, c.h.val_SI
        c.check_temperature_bounds()
        h1 = c.h.val_SI
        if h0 < hlo:
            ctx.eq("minimum", h1, hlo, tol=1e-9)
        elif h0 > hhi:
            ctx.eq("maximum", h1, hhi, tol=1e-9)
        else:
            same(ctx, "kept", h1, h0)
        same(ctx, "m", c.m.val_SI, m0)
        same(ctx, "p", c.p.val_SI, p0)
    return Harness("limits:T-mixture", fn, repl=repl, conc=12)


# ------------------------------------------------------ the whole sweep
def mark(c, log):
    """the four bounds checks by their contracts: they only change what
    they are responsible for"""
    for k in ("check_pressure_bounds", "check_enthalpy_bounds",
              "check_two_phase_bounds", "check_temperature_bounds"):
        setattr(c, k, lambda *a, k=k: log.append((k, a)))


def sweep(pure, it, good, flags):
    """check_connection_properties: free variables only, ranges of the
    network, and only in the first iterations for mixtures"""
    def fn(ctx):
        nw = network(ctx)
        nw.iter = it
        R = {}
        for k, typ in (("m", (-3, 3)), ("p", (1e5, 1e6)), ("h", (1e5, 1e6))):
            a = ctx.real(k + ".min", typ=(typ[0] * 1.0, sum(typ) / 2))
            b = ctx.real(k + ".max", typ=(sum(typ) / 2, typ[1]))
            ctx.assume(a < b)
            R[k] = (a, b)
            setattr(nw, k + "_range_SI", [a, b])
        c = conn("c")
        c.fluid.val = {"H2O": 1.0} if pure else {"N2": 0.7, "O2": 0.3}
        for f in c.fluid.val:
            c.fluid.wrapper[f] = FakeWrapper(f)
        c.build_fluid_data()
        log = []
        mark(c, log)
        c.good_starting_values = good
        var = {k: ctx.flag(k + ".is_var") for k in PH}
        for k, typ in (("m", (-6, 6)), ("p", (1e4, 2e6)), ("h", (-1e6, 2e6))):
            d = c.get_attr(k)
            d.val_SI = ctx.real(k, typ=typ)
            d.is_var = var[k]
            d.unit = UNIT[k]
        c.T.is_set, c.Td_bp.is_set, c.state.is_set = flags
        old = {k: c.get_attr(k).val_SI for k in PH}
        nw.check_connection_properties(c)
        called = {k for k, _ in log}
        for k in PH:
            new = c.get_attr(k).val_SI
            ctx.true(k + ".flag", c.get_attr(k).is_var is var[k])
            lo, hi = R[k]
            act = k == "m" or (not pure and it < 4 and not good)
            if not var[k] or not act:
                same(ctx, k + ".kept", new, old[k])
            elif old[k] < lo:
                ctx.eq(k + ".min", new, lo)
            elif old[k] > hi:
                ctx.eq(k + ".max", new, hi)
            else:
                same(ctx, k + ".in range", new, old[k])
        exp = set()
        if pure:
            if var["p"]:
                exp.add("check_pressure_bounds")
            if var["h"]:
                exp.add("check_enthalpy_bounds")
                if it < 3 and (flags[1] or flags[2]):
                    exp.add("check_two_phase_bounds")
            order = [k for k, _ in log]
            if len(order) > 1:
                ctx.true("pressure first", order == sorted(
                    order, key=("check_pressure_bounds",
                                "check_enthalpy_bounds",
                                "check_two_phase_bounds").index))
        elif it < 4 and not good and var["h"] and flags[0]:
            exp.add("check_temperature_bounds")
        ctx.true(f"bounds checks {sorted(exp)}", called == exp)
    return Harness(f"sweep[{pure},{it},{good},{flags}]", fn,
                   repl=lambda: [], conc=12)


def bounds(it, var):
    """check_variable_bounds: mass fractions, every connection, components
    in the first iterations"""
    def fn(ctx):
        nw = network(ctx)
        nw.iter = it
        a, b = conn("a"), conn("b")
        nw.add_conns(a, b)
        nw.check_network() if not nw.checked else None
        log = []
        nw.check_connection_properties = lambda c: log.append(c)
        for cp in nw.comps["object"]:
            cp.convergence_check = lambda cp=cp: log.append(cp)
        fl = ("N2", "O2", "Ar")
        old = {}
        for c in (a, b):
            for f in fl:
                c.fluid.wrapper[f] = FakeWrapper(f)
                c.fluid.val[f] = ctx.real(f"{c.label}.{f}", 0, 1,
                                          typ=(0.1, 0.6))
            c.fluid.is_var = set(var)
            c.fluid.is_set = set(fl) - set(var)
            old[c] = dict(c.fluid.val)
            ctx.assume(sum(old[c].values()) > 0.01)
        nw.check_variable_bounds()
        for c in (a, b):
            s = sum(old[c].values())
            for f in fl:
                same(ctx, f"{c.label}.data[{f}]",
                     c.fluid_data[f]["mass_fraction"], c.fluid.val[f])
                if f not in var:
                    same(ctx, f"{c.label}.{f} fixed", c.fluid.val[f],
                         old[c][f])
                else:
                    ctx.true(f"{c.label}.{f} not negative",
                             c.fluid.val[f] >= 0)
                    # the variable ones keep their proportions
                    for g in var:
                        ctx.eq(f"{c.label}.{f}:{g}",
                               c.fluid.val[f] * old[c][g],
                               c.fluid.val[g] * old[c][f], tol=1e-9)
            if len(var) == 3:
                ctx.eq(f"{c.label}.sum", sum(c.fluid.val.values()), 1,
                       tol=1e-9)
            if len(var) == 0:
                continue
            if ctx.mode == "conc":
                continue
            t = sum(c.fluid.val.values())
            if s > 1:
                ctx.true(f"{c.label}.sum reduced", t <= s)
                ctx.true(f"{c.label}.sum from above", t >= 1 - 1e-12)
            else:
                ctx.true(f"{c.label}.sum raised", t >= s)
                ctx.true(f"{c.label}.sum from below", t <= 1 + 1e-12)
        ctx.true("each connection", {a, b} <= set(log))
        comps = set(nw.comps["object"]) & set(log)
        ctx.true("components", comps == (
            set(nw.comps["object"]) if it < 3 else set()))
        if it < 3:
            k = max(log.index(cp) for cp in comps)
            ctx.true("limits after component corrections",
                     {a, b} <= set(log[k:]))
    return Harness(f"bounds[{it},{','.join(var)}]", fn, repl=lambda: [])


# --------------------------------------------------------- starting values
def start(good, ref, td, state):
    """init_properties: fixed values and given starting values"""
    def fn(ctx):
        from tespy.connections import Ref
        nw = network(ctx)
        c, d = conn("c"), conn("d")
        nw.add_conns(c, d)
        nw.check_network() if not nw.checked else None
        nw.init_path = None
        nw.init_previous = True
        nw.num_conn_eq = 0
        start = {}
        for k in (c, d):
            k.num_eq = 0
            k.fluid.val = {"H2O": 1.0}
            k.fluid.is_set = {"H2O"}
            k.fluid.wrapper = {"H2O": FakeWrapper("H2O")}
            k.fluid.engine, k.fluid.back_end = {"H2O": None}, {"H2O": None}
            for q, typ in (("m", (1, 9)), ("p", (1e5, 1e6)),
                           ("h", (1e5, 1e6))):
                x = k.get_attr(q)
                x.val_SI = ctx.real(f"{k.label}.{q}", 0 if q == "p" else
                                    None, strict=True, typ=typ)
                x.is_var = ctx.flag(f"{k.label}.{q}.is_var") \
                    if k is c else True
                x.val0 = ctx.real(f"{k.label}.{q}0", 0 if q == "p" else
                                  None, strict=True, typ=typ)
                start[k, q] = (x.val_SI, x.val0)
        fac, dlt = ctx.real("factor", typ=(0.5, 2)), ctx.real(
            "delta", typ=(1, 9))
        if ref:
            r = c.get_attr(ref + "_ref")
            r.is_set = True
            r.ref = Ref(d, fac, dlt)
        if td is not None:
            c.Td_bp.is_set = True
            c.Td_bp.val = ctx.real("Td", typ=(1, 20))
            ctx.assume(c.Td_bp.val > 0)
            if td < 0:
                c.Td_bp.val = -c.Td_bp.val
        if state:
            c.state.is_set, c.state.val = True, state
        nw.init_set_properties()
        c.good_starting_values = d.good_starting_values = good
        calls = []
        nw.init_precalc_properties = lambda c: calls.append(c)
        nw.init_properties()
        var = {q: bool(c.get_attr(q).is_var) for q in PH}
        for k in (c, d):
            for q in PH:
                x = k.get_attr(q)
                old, v0 = start[k, q]
                same(ctx, f"{k.label}.{q}.val0", x.val0, v0)
                if k is c and not var[q]:
                    same(ctx, f"{k.label}.{q} fixed", x.val_SI, old)
                elif k is c and q == "h" and (td or state):
                    p = c.p.val_SI
                    w = c.fluid.wrapper["H2O"]
                    l, g = w.h_pQ(p, 0), w.h_pQ(p, 1)
                    exp = v0
                    if ref == "h" and not good:
                        exp = fac * d.h.val_SI + dlt
                    gas = state == "g" or (td or 0) > 0
                    if gas:
                        ctx.true("gas", x.val_SI >= g)
                        if exp >= g:
                            ctx.eq("gas kept", x.val_SI, exp)
                    else:
                        ctx.true("liquid", x.val_SI <= l)
                        if exp <= l:
                            ctx.eq("liquid kept", x.val_SI, exp)
                elif k is c and ref == q and not good:
                    ctx.eq(f"{q} from reference", x.val_SI,
                           d.get_attr(q).val_SI * fac + dlt, tol=1e-9)
                else:
                    ctx.eq(f"{k.label}.{q} start", x.val_SI, v0, tol=1e-9)
        ctx.true("states from specifications", set(calls) == (
            set() if good else {c, d}))
    return Harness(f"start[{good},{ref},{td},{state}]", fn,
                   repl=lambda: [], conc=12)


def precalc(x, T, fail):
    """starting enthalpy from vapour content or temperature"""
    def fn(ctx):
        nw = network(ctx)
        c, w = single(ctx, (0,) if fail else ())
        c.h.is_var = ctx.flag("h.is_var")
        c.x.is_set, c.T.is_set = x, T
        c.x.val_SI = ctx.real("x", 0, 1, typ=(0.1, 0.9))
        c.T.val_SI = ctx.real("T", 0, strict=True, typ=(300, 500))
        h0, p0, m0 = c.h.val_SI, c.p.val_SI, c.m.val_SI
        sat = w.h_pQ(p0, c.x.val_SI)
        sub = FakeWrapper.h_pT(w, p0, c.T.val_SI) if ctx.mode == "sym" else \
            4000.0 * (c.T.val_SI - w.offset) + 0.05 * p0
        nw.init_precalc_properties(c)
        same(ctx, "p", c.p.val_SI, p0)
        same(ctx, "m", c.m.val_SI, m0)
        if not c.h.is_var:
            same(ctx, "h fixed", c.h.val_SI, h0)
        elif T and not fail:
            ctx.eq("h from T", c.h.val_SI, sub, tol=1e-9)
        elif x:
            ctx.eq("h from x", c.h.val_SI, sat, tol=1e-9)
        else:
            same(ctx, "h", c.h.val_SI, h0)
    return Harness(f"precalc[{x},{T},{fail}]", fn, repl=lambda: [])


def from_file():
    """starting values of a file: connections that are not in it keep
    theirs, specified mass fractions are not overwritten"""
    def fn(ctx):
        nw = network(ctx)
        c, d = conn("c"), conn("d")
        nw.add_conns(c, d)
        nw.check_network() if not nw.checked else None
        old = {}
        for k in (c, d):
            k.fluid.val = {"H2O": ctx.real(f"{k.label}.x", typ=(0, 1)),
                           "N2": ctx.real(f"{k.label}.y", typ=(0, 1))}
            k.fluid.is_var = {"N2"}
            k.fluid.is_set = {"H2O"}
            k.good_starting_values = False
            for q in PH:
                a = k.get_attr(q)
                a.unit = UNIT[q]
                a.val0 = ctx.real(f"{k.label}.{q}0", typ=(1, 9))
                a.val_SI = ctx.real(f"{k.label}.{q}", typ=(1, 9))
                old[k, q] = (a.val0, a.val_SI)
            old[k, "x"] = dict(k.fluid.val)
        row = {q: ctx.real("file." + q, typ=(1, 9)) for q in PH}
        row.update({q + "_unit": UNIT[q] for q in PH})
        row["H2O"] = ctx.real("file.H2O", typ=(0, 1))
        row["N2"] = ctx.real("file.N2", typ=(0, 1))
        df = pd.DataFrame([row], index=["c"], dtype=object)
        for k in (c, d):
            nw.init_conn_params_from_path(k, df)
        for q in PH:
            ctx.eq(f"c.{q}0", c.get_attr(q).val0, row[q], tol=1e-9)
            same(ctx, f"c.{q}", c.get_attr(q).val_SI, old[c, q][1])
            same(ctx, f"d.{q}0", d.get_attr(q).val0, old[d, q][0])
            same(ctx, f"d.{q}", d.get_attr(q).val_SI, old[d, q][1])
        ctx.eq("c.N2", c.fluid.val["N2"], row["N2"])
        same(ctx, "c.H2O", c.fluid.val["H2O"], old[c, "x"]["H2O"])
        for f in ("H2O", "N2"):
            same(ctx, f"d.{f}", d.fluid.val[f], old[d, "x"][f])
        ctx.true("c good", c.good_starting_values is True)
        ctx.true("d not good", d.good_starting_values is False)
    return Harness("from-file", fn, repl=lambda: [])


# -------------------------------------------------------- whole networks
BAD = {"low": dict(m0=1e-4, p0=1e3, h0=-1e7),
       "high": dict(m0=1e5, p0=5e9, h0=1e8),
       "reverse": dict(m0=-3.0, p0=1e6, h0=2e5)}


def fixed(nw):
    """every quantity that the solver must not alter"""
    out = {}
    for c in nw.conns["object"]:
        for q in PH:
            d = c.get_attr(q)
            if not d.is_var:
                out[c.label, q] = (d, "val_SI", d.val_SI)
        for f, v in c.fluid.val.items():
            if f not in c.fluid.is_var:
                out[c.label, "x", f] = (c.fluid.val, f, v)
        for q in c.property_data:
            d = c.get_attr(q)
            if getattr(d, "is_set", None) is True and hasattr(d, "val_SI"):
                out[c.label, q, "val"] = (d, "val", d.val)
    for cp in nw.comps["object"]:
        for k in cp.parameters:
            d = cp.get_attr(k)
            if getattr(d, "is_set", False) and hasattr(d, "val") and not \
                    getattr(d, "is_var", False):
                out[cp.label, k] = (d, "val", d.val)
    return out


def whole(name, bad):
    """through all iterations and from bad starting values"""
    def fn(ctx):
        import random
        np.random.seed(3)
        random.seed(3)
        net = nets.build(name)
        nw = net.nw
        log = []
        orig = nw.solve_control
        memo = {}

        def control():
            if not memo:
                memo.update(fixed(nw))
            orig()
            for k, (o, a, v) in memo.items():
                new = o[a] if isinstance(o, dict) else getattr(o, a)
                if not (new == v or (new != new and v != v)):
                    log.append((k, v, new))
        nw.solve_control = control
        for c in nw.conns["object"]:
            c.good_starting_values = False
            if bad:
                for k, v in BAD[bad].items():
                    q = c.get_attr(k[0])
                    from tespy.tools.helpers import convert_from_SI
                    q.val0 = convert_from_SI(k[0], v, getattr(
                        nw, k[0] + "_unit"))
        try:
            nets.solve(nw, max_iter=12)
        except (ValueError, ArithmeticError, TypeError):
            # no property at such a state: not a matter of this contract
            if not bad:
                raise
        ctx.true(f"fixed quantities {log[:2]}", not log)
        ctx.true("something to check", len(memo) > 3)
    return Harness(f"whole:{name}[{bad}]", fn, sym=False, conc=1,
                   thorough_conc=1, bounded="sample networks and bad "
                   "starting values, 12 iterations")


def previous():
    """the previous solution is where the next calculation starts, unless the
    user declines it: then specified temperatures and references are"""
    def fn(ctx):
        from tespy.connections import Ref
        from tespy.tools.fluid_properties import h_mix_pT
        np.random.seed(4)
        net = nets.build("linear")
        nw, c = net.nw, net.conn
        nets.solve(nw)
        ctx.true("solved", bool(nw.converged))
        for k, prev in enumerate((True, False, True, False)):
            was = {lb: {q: x.get_attr(q).val_SI for q in "mph"}
                   for lb, x in c.items()}
            c["4"].set_attr(T=100 + 20 * k)
            c["5"].set_attr(p=None)
            c["5"].set_attr(p=Ref(c["4"], 0.4 + k / 10, 0))
            nets.solve(nw, init_only=True, init_previous=prev)
            h = c["4"].h.val_SI
            if prev:
                ctx.eq("h", h, was["4"]["h"], tol=1e-9)
                ctx.eq("p", c["5"].p.val_SI, was["5"]["p"], tol=1e-9)
            else:
                ctx.eq("h of T", h, h_mix_pT(
                    c["4"].p.val_SI, 373.15 + 20 * k, c["4"].fluid_data),
                    tol=1e-9)
                ctx.eq("p of ref", c["5"].p.val_SI,
                       c["4"].p.val_SI * (0.4 + k / 10), tol=1e-9)
            for lb, q in (("3", "h"), ("3", "p"), ("4", "p")):
                ctx.eq(f"{q}{lb}", c[lb].get_attr(q).val_SI, was[lb][q],
                       tol=1e-9)
            nets.solve(nw, init_previous=prev)
            ctx.true("converged", bool(nw.converged))
            ctx.eq("T", c["4"].T.val, 100 + 20 * k, tol=1e-6)
            ctx.eq("ref", c["5"].p.val, c["4"].p.val * (0.4 + k / 10),
                   tol=1e-6)
    return Harness("previous", fn, sym=False, conc=1,
                   bounded="one network, four calculations")


def harnesses(tier):
    out = [plausible(c) for c in ("Turbine", "SteamTurbine", "Compressor",
                                  "Pump")]
    out += [pump_curve(n) for n in (2, 3)]
    rest = [("Valve", {}, ("H2O",), {0: 0}), ("Pipe", {}, ("H2O",), {0: 0}),
            ("SimpleHeatExchanger", {}, ("H2O",), {0: 0}),
            ("HeatExchanger", {}, ("H2O",), {0: 0, 1: 1}),
            ("Condenser", {}, ("H2O",), {0: 0, 1: 1}),
            ("Merge", {}, ("N2", "O2"), {}),
            ("Splitter", {}, ("N2", "O2"), {}),
            ("Drum", {}, ("H2O",), {}),
            ("CycleCloser", {}, ("H2O",), {0: 0})]
    out += [every(c, 0, kw, fl, sh) for c, kw, fl, sh in rest]
    for order in ((0, 1), (1, 0)):
        for goods in ((False,) * 3, (True,) * 3, (True, False, False),
                      (False, True, False), (False, False, True)):
            for ls in (False, True):
                if ls and any(goods):
                    continue
                out.append(flame("CombustionChamber", order, goods, ls))
    for cls in ("CombustionChamber", "DiabaticCombustionChamber",
                "CombustionEngine"):
        for gas in ("O2 CO2", "H2O N2", "Ar CH4"):
            out.append(flame(cls, (0, 1), (False,) * 3, False, gas.split()))
    for cls in ("DiabaticCombustionChamber", "CombustionEngine"):
        out.append(flame(cls, (0, 1), (False,) * 3, False))
    out += [pressure(r) for r in (False, True)]
    out += [enthalpy(r, t) for r, t in (
        ((), "-"), ((0,), "Tmin"), ((1,), "Tmax"), ((1, 2), "Tmax twice"),
        ((0, 2), "both"))]
    for td, st, t, s in ((1, "l", True, False), (-1, "g", True, False),
                         (0, "l", True, False), (None, "g", False, True),
                         (None, "l", False, True), (1, "l", False, True),
                         (-1, "g", False, True), (1, "g", True, True),
                         (-1, "l", True, True), (1, "g", False, False)):
        out.append(phase(td, st, t, s))
    out.append(temperature())
    for pure in (True, False):
        for it in (0, 2, 3, 4, 9):
            for good in (False, True):
                for flags in ((False, False, False), (True, False, False),
                              (False, True, False), (False, False, True)):
                    if not pure and flags[1:] != (False, False):
                        continue
                    out.append(sweep(pure, it, good, flags))
    for it in (0, 2, 3, 7):
        for var in ((), ("N2",), ("N2", "O2"), ("N2", "O2", "Ar")):
            out.append(bounds(it, var))
    for good in (False, True):
        for ref in (None, "m", "p", "h"):
            out.append(start(good, ref, None, None))
        out += [start(good, None, 1, None), start(good, None, -1, None),
                start(good, None, None, "l"), start(good, None, None, "g"),
                start(good, "h", 1, None)]
    out += [precalc(x, T, f) for x in (False, True) for T in (False, True)
            for f in (False, True)]
    out += [from_file(), previous()]
    for n in nets.NETS:
        for bad in (None, "low", "high", "reverse"):
            out.append(whole(n, bad))
    return out
