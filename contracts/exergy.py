"""C09: entropy and exergy balances of components, exergy analysis."""
import numpy as np
import pandas as pd

from vc.bench import Bench
from vc.engine import is_sym
from vc.runner import Harness

from . import nets
from .jacobian import repl

NAN = float("nan")


def isnan(x):
    return not is_sym(x) and x != x


def undefined(ctx, name, x):
    ctx.true(name, isnan(x))


def put(ctx, b, mass=None):
    """exergies of the streams, as contracted in C10"""
    for c in b.conns:
        m = c.m.val_SI
        c.ex_therm = ctx.real(f"{c.label}.ex_T", typ=(0, 500))
        c.ex_mech = ctx.real(f"{c.label}.ex_M", typ=(-50, 300))
        c.ex_chemical = ctx.real(f"{c.label}.ex_CH", typ=(0, 900))
        c.ex_physical = c.ex_therm + c.ex_mech
        for k in ("therm", "mech", "chemical", "physical"):
            setattr(c, "Ex_" + k, m * getattr(c, "ex_" + k))
        c.T.val_SI = ctx.real(f"{c.label}.T", 0, strict=True,
                              typ=(250, 350))
    return ctx.real("T0", 0, strict=True, typ=(280, 310))


def ph(c):
    return c.Ex_physical


def th(c):
    return c.Ex_therm


def me(c):
    return c.Ex_mech


def ch(c):
    return c.Ex_chemical


def tail(ctx, c):
    """destruction is fuel minus product, efficiency product per fuel"""
    if isnan(c.E_P):
        if isnan(c.E_F):
            undefined(ctx, "E_D", c.E_D)
        else:
            ctx.eq("E_D", c.E_D, c.E_F)
        undefined(ctx, "epsilon", c.epsilon)
        return
    ctx.eq("E_D", c.E_D, c.E_F - c.E_P)
    if c.E_F == 0:
        undefined(ctx, "epsilon", c.epsilon)
    else:
        ctx.eq("epsilon", c.epsilon * c.E_F, c.E_P)


def bus(ctx, c, massless, physical=0, chemical=0):
    e = c.E_bus
    ctx.true("bus-parts", isinstance(e, dict) and
             set(e) == {"chemical", "physical", "massless"})
    for k, x in (("chemical", chemical), ("physical", physical),
                 ("massless", massless)):
        if isnan(x):
            undefined(ctx, f"bus[{k}]", e[k])
        else:
            ctx.eq(f"bus[{k}]", e[k], x)


def check(ctx, name, a, b):
    if isnan(b):
        undefined(ctx, name, a)
    else:
        ctx.eq(name, a, b)


def bench(ctx, cls, **k):
    k.setdefault("share", {0: 0})
    b = Bench(ctx, cls, flags=True, **k)
    return b, put(ctx, b)


def machine(kind):
    """turbine, compressor, pump"""
    def fn(ctx):
        b, T0 = bench(ctx, kind)
        i, o, c = b.inl[0], b.outl[0], b.comp
        P = c.P.val = ctx.real("P", typ=(-500, 500))
        c.exergy_balance(T0)
        Ti, To = i.T.val_SI, o.T.val_SI
        if kind == "Turbine":
            if Ti >= T0 and To >= T0:
                p, f = -P, ph(i) - ph(o)
            elif Ti > T0 and To <= T0:
                p, f = -P + th(o), th(i) + me(i) - me(o)
            elif Ti <= T0 and To <= T0:
                p, f = -P + th(o) - th(i), me(i) - me(o)
            else:
                p = f = NAN
            bus(ctx, c, -P)
        else:
            if Ti >= T0 and To >= T0:
                p, f = ph(o) - ph(i), P
            elif Ti <= T0 and To > T0:
                p, f = th(o) + me(o) - me(i), P + th(i)
            elif Ti <= T0 and To <= T0:
                p, f = me(o) - me(i), P + th(i) - th(o)
            else:
                p = f = NAN
            bus(ctx, c, P)
        check(ctx, "E_P", c.E_P, p)
        check(ctx, "E_F", c.E_F, f)
        tail(ctx, c)
        if not isnan(f):
            ctx.eq("exergy-balance", c.E_D, ph(i) - ph(o) + P)
    return Harness(f"exergy[{kind}]", fn, repl=repl)


def valve(kind="Valve"):
    def fn(ctx):
        b, T0 = bench(ctx, kind)
        i, o, c = b.inl[0], b.outl[0], b.comp
        c.exergy_balance(T0)
        Ti, To = i.T.val_SI, o.T.val_SI
        if Ti > T0 and To > T0:
            p, f = NAN, ph(i) - ph(o)
        elif To <= T0 and Ti > T0:
            p, f = th(o), th(i) + me(i) - me(o)
        elif Ti <= T0 and To <= T0:
            p, f = th(o) - th(i), me(i) - me(o)
        else:
            p = f = NAN
        check(ctx, "E_P", c.E_P, p)
        check(ctx, "E_F", c.E_F, f)
        tail(ctx, c)
        if not isnan(f):
            ctx.eq("exergy-balance", c.E_D, ph(i) - ph(o))
    return Harness(f"exergy[{kind}]", fn, repl=repl)


def drum():
    def fn(ctx):
        b, T0 = bench(ctx, "Drum", share={})
        i, o, c = b.inl, b.outl, b.comp
        c.exergy_balance(T0)
        ctx.eq("E_P", c.E_P, ph(o[0]) + ph(o[1]))
        ctx.eq("E_F", c.E_F, ph(i[0]) + ph(i[1]))
        tail(ctx, c)
    return Harness("exergy[Drum]", fn, repl=repl)


def ends(kind):
    def fn(ctx):
        b, T0 = bench(ctx, kind, share={})
        c = b.conns[0]
        b.comp.exergy_balance(T0)
        bus(ctx, b.comp, 0, ph(c), ch(c))
        for k in ("E_P", "E_F", "E_D", "epsilon"):
            undefined(ctx, k, getattr(b.comp, k))
    return Harness(f"exergy[{kind}]", fn, repl=repl)


def neutral(kind):
    """components without exergy balance report nothing"""
    def fn(ctx):
        b, T0 = bench(ctx, kind, share={})
        b.comp.exergy_balance(T0)
        for k in ("E_P", "E_F", "E_D", "epsilon"):
            undefined(ctx, k, getattr(b.comp, k))
    return Harness(f"exergy[{kind}]", fn, repl=repl)


def merge(n):
    def fn(ctx):
        b, T0 = bench(ctx, "Merge", kw={"num_in": n}, share={})
        o, c = b.outl[0], b.comp
        # solved: mass is conserved
        o.m.val_SI = sum(i.m.val_SI for i in b.inl)
        for k in ("therm", "mech", "chemical", "physical"):
            setattr(o, "Ex_" + k, o.m.val_SI * getattr(o, "ex_" + k))
        c.exergy_balance(T0)
        To = o.T.val_SI
        p = f = 0
        if To > T0:
            for i in b.inl:
                if i.T.val_SI < To:
                    if i.T.val_SI >= T0:
                        p = p + i.m.val_SI * (o.ex_physical - i.ex_physical)
                    else:
                        p = p + i.m.val_SI * o.ex_physical
                        f = f + ph(i)
                else:
                    f = f + i.m.val_SI * (i.ex_physical - o.ex_physical)
        elif To == T0:
            p, f = NAN, sum(ph(i) for i in b.inl)
        else:
            for i in b.inl:
                if i.T.val_SI > To:
                    if i.T.val_SI >= T0:
                        p = p + i.m.val_SI * o.ex_physical
                        f = f + ph(i)
                    else:
                        p = p + i.m.val_SI * (o.ex_physical - i.ex_physical)
                else:
                    f = f + i.m.val_SI * (i.ex_physical - o.ex_physical)
        check(ctx, "E_P", c.E_P, p)
        check(ctx, "E_F", c.E_F, f)
        if not isnan(p):
            tail(ctx, c)
            ctx.eq("exergy-balance", c.E_D, sum(ph(i) for i in b.inl) -
                   ph(o))
    return Harness(f"exergy[Merge {n}]", fn, repl=repl,
                   bounded="number of inlets")


def exchanger(kind):
    def fn(ctx):
        b, T0 = bench(ctx, kind, share={0: 0, 1: 1})
        (i1, i2), (o1, o2), c = b.inl, b.outl, b.comp
        c.exergy_balance(T0)
        hot = {x: bool(x.T.val_SI > T0) for x in b.conns}
        key = (hot[i1], hot[o1], hot[i2], hot[o2])
        if key == (True,) * 4:
            p = th(o2) - th(i2)
            f = ph(i1) - ph(o1) + me(i2) - me(o2)
        elif key == (False,) * 4:
            p = th(o1) - th(i1)
            f = ph(i2) - ph(o2) + me(i1) - me(o1)
        elif key == (True, False, False, True):
            p = th(o1) + th(o2)
            f = ph(i1) + ph(i2) - me(o1) - me(o2)
        elif key == (True, False, False, False):
            p = th(o1)
            f = ph(i1) + ph(i2) - ph(o2) - me(o1)
        elif key == (True, True, False, False):
            p = NAN
            f = ph(i1) - ph(o1) + ph(i2) - ph(o2)
        elif key == (True, True, False, True):
            p = th(o2)
            f = ph(i1) - ph(o1) + ph(i2) - me(o2)
        else:
            p = f = None        # not documented; the balance holds anyway
        if f is not None:
            check(ctx, "E_P", c.E_P, p)
            check(ctx, "E_F", c.E_F, f)
        tail(ctx, c)
        ctx.eq("exergy-balance", c.E_D, ph(i1) + ph(i2) - ph(o1) - ph(o2))
    return Harness(f"exergy[{kind}]", fn, repl=repl)


def simple(kind, dissipative):
    def fn(ctx):
        b, T0 = bench(ctx, kind)
        i, o, c = b.inl[0], b.outl[0], b.comp
        c.dissipative.val = dissipative
        Q = c.Q.val = ctx.real("Q", typ=(-500, 500))
        c.exergy_balance(T0)
        Ti, To = i.T.val_SI, o.T.val_SI
        skip = object()
        loss = dissipative or dissipative is None
        if Q < 0:
            if Ti >= T0 and To >= T0:
                p = NAN if loss else th(i) - th(o)
                f, e = ph(i) - ph(o), p
            elif Ti >= T0 and To < T0:
                p, f = th(o), th(i) + me(i) + th(o) - me(o)
                e = skip
            elif Ti <= T0 and To <= T0:
                p, f = th(o) - th(i), th(o) - th(i) + me(i) - me(o)
                e = p
            else:
                p = f = e = NAN
        elif Q > 0:
            if Ti >= T0 and To >= T0:
                p, f = ph(o) - ph(i), th(o) - th(i)
                e = f
            elif Ti >= T0 - 1e-6 and To >= T0 - 1e-6:
                return          # tolerance of the comparison
            elif Ti <= T0 and To > T0:
                p, f = th(i) + th(o), th(i) + me(i) - me(o)
                e = skip
            elif Ti < T0 and To < T0:
                p = NAN if loss else th(i) - th(o) + me(o) - me(i)
                f = e = th(i) - th(o)
            elif Ti <= T0 and To <= T0:
                return          # equality is not documented
            else:
                p = f = e = NAN
        else:
            p, f, e = NAN, ph(i) - ph(o), NAN
        check(ctx, "E_P", c.E_P, p)
        check(ctx, "E_F", c.E_F, f)
        if e is not skip:
            check(ctx, "bus", c.E_bus["massless"], e)
        tail(ctx, c)
    return Harness(f"exergy[{kind},{dissipative}]", fn, repl=repl)


def combustion(kind):
    def fn(ctx):
        b, T0 = bench(ctx, kind, share={})
        c = b.comp
        if kind == "CombustionEngine":
            P = c.P.val = ctx.real("P", typ=(-500, -1))
            i, o = b.inl, b.outl
            c.exergy_balance(T0)
            ctx.eq("E_P", c.E_P, ph(o[2]) - ph(i[2]) - ph(i[3]) - P +
                   ph(o[0]) - ph(i[0]) + ph(o[1]) - ph(i[1]))
            ctx.eq("E_F", c.E_F, ch(i[2]) + ch(i[3]) - ch(o[2]))
            bus(ctx, c, -P)
        else:
            i, o = b.inl, b.outl[0]
            c.exergy_balance(T0)
            ctx.eq("E_P", c.E_P, ph(o) - ph(i[0]) - ph(i[1]))
            ctx.eq("E_F", c.E_F, ch(i[0]) + ch(i[1]) - ch(o))
            ctx.eq("exergy-balance", c.E_D, sum(ph(x) + ch(x) for x in i) -
                   ph(o) - ch(o))
            bus(ctx, c, NAN, NAN, NAN)
        tail(ctx, c)
    return Harness(f"exergy[{kind}]", fn, repl=repl)


def electrolyzer():
    def fn(ctx):
        b, T0 = bench(ctx, "WaterElectrolyzer", share={})
        c, i, o = b.comp, b.inl, b.outl
        P = c.P.val = ctx.real("P", typ=(1, 500))
        c.exergy_balance(T0)
        ctx.eq("E_P", c.E_P, ch(o[1]) + ch(o[2]) - ch(i[1]) + ph(o[0]) -
               ph(i[0]))
        ctx.eq("E_F", c.E_F, P)
        bus(ctx, c, P)
        tail(ctx, c)
    return Harness("exergy[WaterElectrolyzer]", fn, repl=repl)


# ------------------------------------------------------------------ entropy
def entropies(ctx, b):
    for c in b.conns:
        c.s.val_SI = ctx.real(f"{c.label}.s", typ=(500, 3000))


def entropy_through(kind):
    def fn(ctx):
        b, _ = bench(ctx, kind)
        entropies(ctx, b)
        b.comp.entropy_balance()
        i, o = b.inl[0], b.outl[0]
        ctx.eq("S_irr", b.comp.S_irr, i.m.val_SI * (o.s.val_SI -
                                                    i.s.val_SI))
    return Harness(f"entropy[{kind}]", fn, repl=repl)


def s_star(p, c):
    return c.fluid_data["H2O"]["wrapper"].s_ph(p, c.h.val_SI)


def entropy_simple(kind):
    def fn(ctx):
        b, _ = bench(ctx, kind)
        entropies(ctx, b)
        c, i, o = b.comp, b.inl[0], b.outl[0]
        m = i.m.val_SI
        c.entropy_balance()
        ps = i.p.val_SI * (o.p.val_SI / i.p.val_SI) ** 0.5
        SQ = m * (s_star(ps, o) - s_star(ps, i))
        ctx.eq("S_Q", c.S_Q, SQ)
        ctx.eq("total", c.S_Q + c.S_irr, m * (o.s.val_SI - i.s.val_SI))
        ctx.eq("T_mQ", c.T_mQ * c.S_Q, m * (o.h.val_SI - i.h.val_SI))
    return Harness(f"entropy[{kind}]", fn, repl=repl)


def entropy_exchanger(kind):
    def fn(ctx):
        b, _ = bench(ctx, kind, share={0: 0, 1: 1})
        entropies(ctx, b)
        c = b.comp
        for k in (1, 2):
            c.get_attr(f"pr{k}").val = ctx.real(f"pr{k}", 0, strict=True,
                                                typ=(0.8, 1))
        c.entropy_balance()
        tot = 0
        for k in (0, 1):
            i, o = b.inl[k], b.outl[k]
            m = i.m.val_SI
            ps = i.p.val_SI * c.get_attr(f"pr{k + 1}").val ** 0.5
            SQ = getattr(c, f"S_Q{k + 1}")
            ctx.eq("S_Q", SQ, m * (s_star(ps, o) - s_star(ps, i)))
            ds = m * (o.s.val_SI - i.s.val_SI)
            ctx.eq("S_irr_i", getattr(c, f"S_irr{k + 1}") + SQ, ds)
            ctx.eq("T_mQ", getattr(c, f"T_mQ{k + 1}") * SQ,
                   m * (o.h.val_SI - i.h.val_SI))
            tot = tot + ds
        ctx.eq("total", c.S_irr, tot)
    return Harness(f"entropy[{kind}]", fn, repl=repl)


def entropy_merge(n, fluids):
    def fn(ctx):
        b, _ = bench(ctx, "Merge", kw={"num_in": n}, share={},
                     fluids=fluids)
        entropies(ctx, b)
        b.comp.entropy_balance()

        def ref(c):
            return smix(ctx, c, c.mixing_rule)
        o = b.outl[0]
        ctx.eq("S_irr", b.comp.S_irr, o.m.val_SI * (
            o.s.val_SI - ref(o)) - sum(i.m.val_SI * (i.s.val_SI - ref(i))
                                       for i in b.inl))
    return Harness(f"entropy[Merge {n}x{len(fluids)}]", fn, repl=repl,
                   bounded="number of inlets and fluids")


def smix(ctx, c, rule):
    from tespy.tools.fluid_properties import s_mix_pT
    return s_mix_pT(1e5, 298.15, c.fluid_data, rule)


def entropy_chamber(kind):
    def fn(ctx):
        sets = (("O2", "N2"), ("CH4",), ("N2", "CO2", "H2O"))
        e = kind == "CombustionEngine"
        b, _ = bench(ctx, kind, share={}, fluids=("H2O",), fluidsets={
            ("i2" if e else "i0"): sets[0], ("i3" if e else "i1"): sets[1],
            ("o2" if e else "o0"): sets[2]})
        for c in b.conns:
            for f, x in c.fluid.val.items():
                ctx.assume(x > 1e-6)
        entropies(ctx, b)
        c, i, o = b.comp, b.inl, b.outl
        ti = ctx.real("ti", 0, strict=True, typ=(1e5, 1e6))
        c.calc_ti = lambda: ti
        if kind == "CombustionEngine":
            return engine(ctx, b, ti)
        c.entropy_balance()
        S = o[0].m.val_SI * (o[0].s.val_SI - gas_ref(ctx, o[0])) - sum(
            x.m.val_SI * (x.s.val_SI - gas_ref(ctx, x)) for x in i)
        ctx.eq("S_comb", c.S_comb, S)
        ctx.eq("T_mcomb", c.T_mcomb * c.S_comb, ti)
        ctx.eq("S_irr", c.S_irr, 0)
    return Harness(f"entropy[{kind}]", fn, repl=lambda: [])


def gas_ref(ctx, c):
    """entropy of the components at their partial pressure, water as
    vapour"""
    fd = c.fluid_data
    if len(fd) == 1:
        return next(iter(fd.values()))["wrapper"].s_pT(1e5, 298.15)
    n = {f: d["mass_fraction"] / d["wrapper"]._molar_mass
         for f, d in fd.items()}
    N = sum(n.values())
    S = 0
    for f, d in fd.items():
        w, pp = d["wrapper"], 1e5 * n[f] / N
        if f == "H2O" and pp >= w._p_min and 298.15 <= w.T_sat(pp):
            S = S + d["mass_fraction"] * w.s_QT(1, 298.15)
        else:
            S = S + d["mass_fraction"] * w.s_pT(pp, 298.15)
    return S


def engine(ctx, b, ti):
    c, i, o = b.comp, b.inl, b.outl
    for k, t in (("eta_mech", (0.8, 1)), ("P", (-900, -100)),
                 ("Q1", (-900, -100)), ("Q2", (-900, -100)),
                 ("Qloss", (-90, -10)), ("pr1", (0.8, 1)),
                 ("pr2", (0.8, 1))):
        c.get_attr(k).val = ctx.real(k, *((0, None) if k in (
            "eta_mech", "pr1", "pr2") else ()), strict=True, typ=t)
    if ctx.choice("T_v_inner", ["given", "free"]) == "given":
        c.T_v_inner.is_set = True
        Tv = c.T_v_inner.val = ctx.real("Tv", 0, strict=True,
                                        typ=(400, 900))
    else:
        c.T_v_inner.is_set = False
        Tv = o[2].T.val_SI
    c.entropy_balance()
    SQ = o[2].m.val_SI * (o[2].s.val_SI - gas_ref(ctx, o[2])) - sum(
        x.m.val_SI * (x.s.val_SI - gas_ref(ctx, x)) for x in i[2:])
    ctx.eq("S_Qcomb", c.S_Qcomb, SQ)
    Pirr = (1 / c.eta_mech.val - 1) * c.P.val
    ctx.eq("S_comb", c.S_comb, SQ - (c.Q1.val + c.Q2.val + c.Qloss.val +
                                     Pirr) / Tv)
    ctx.eq("T_mcomb", c.T_mcomb * c.S_comb, ti)


# ----------------------------------------------------------------- analysis
class Line:
    def __init__(self, eta):
        self.eta = eta

    def evaluate(self, x):
        return self.eta


class Part:
    """component by its contract: exergy_balance leaves E_F, E_P, E_D"""

    def __init__(self, ctx, label, group=None, dissip=False):
        self.ctx, self.label = ctx, label
        self.fkt_group = group or label
        self.inl, self.outl = [], []
        self.W = 0          # exergy supplied by the bus
        self.dissip = dissip
        self.kind = "part"

    def exergy_balance(self, T0):
        self.E_bus = {"chemical": 0, "physical": 0, "massless": 0}
        if self.kind == "end":
            c = (self.inl + self.outl)[0]
            self.E_bus["physical"] = c.Ex_physical
            self.E_bus["chemical"] = c.Ex_chemical
            self.E_F = self.E_P = self.E_D = self.epsilon = NAN
            return
        D = sum(c.Ex_physical for c in self.inl) - sum(
            c.Ex_physical for c in self.outl) + self.W
        self.E_bus["massless"] = self.bus_value
        self.E_F = self.ctx.real(f"{self.label}.E_F", 0, strict=True,
                                 typ=(50, 900))
        self.E_P = NAN if self.dissip else self.E_F - D
        self.E_D = D
        self.epsilon = NAN if self.dissip else self.E_P / self.E_F

    def calc_bus_efficiency(self, bus):
        return bus.comps.loc[self, "char"].evaluate(0)


class Stream:
    def __init__(self, ctx, label, a, b, cat):
        self.label, self.source, self.target = label, a, b
        a.outl.append(self)
        b.inl.append(self)
        self.val = ctx.real(f"{label}.E", 0, strict=True, typ=(10, 900))
        self.cat = cat

    def get_physical_exergy(self, p, T):
        self.ex_physical, self.ex_therm, self.ex_mech = 1.0, 0.5, 0.5
        self.Ex_physical = self.val
        self.Ex_therm = self.Ex_mech = self.val / 2

    def get_chemical_exergy(self, p, T, Ch):
        self.ex_chemical, self.Ex_chemical = 0, 0


class BusStub:
    def __init__(self, label):
        self.label = label
        self.comps = pd.DataFrame(columns=["char", "base"], dtype="object")

    def add(self, comp, eta, base):
        self.comps.loc[comp] = [Line(eta), base]


class NW:
    p_unit, T_unit = "bar", "C"

    def __init__(self, comps, conns):
        self.comps = pd.DataFrame({"object": comps},
                                  index=[c.label for c in comps])
        self.conns = pd.DataFrame(
            {"object": conns, "source": [c.source for c in conns],
             "target": [c.target for c in conns]},
            index=[c.label for c in conns])

    def get_comp(self, label):
        return self.comps.loc[label, "object"]


def plant(ctx, groups, base, second, side=None, internal=False):
    """source - heater (fuel) - turbine (product) - pump (internal or
    product) - sink (loss); the balance of every part closes, so the balance
    of the network closes"""
    G = groups
    src, htr, tur, pmp, snk = (
        Part(ctx, n, G.get(n)) for n in ("src", "htr", "tur", "pmp", "snk"))
    src.kind = snk.kind = "end"
    cs = [Stream(ctx, "1", src, htr, "a"), Stream(ctx, "2", htr, tur, "a"),
          Stream(ctx, "3", tur, pmp, "b"), Stream(ctx, "4", pmp, snk, "a")]
    comps = [src, htr, tur, pmp, snk]
    if second:          # a second stream between the same groups
        cs.append(Stream(ctx, "5", htr, tur, "b"))
    Wh = ctx.real("heat", 0, strict=True, typ=(2000, 3000))
    Wt = ctx.real("work", 0, strict=True, typ=(500, 900))
    Wp = ctx.real("pump", 0, strict=True, typ=(50, 90))
    htr.W, htr.bus_value = Wh, Wh
    tur.W, tur.bus_value = -Wt, Wt
    pmp.W, pmp.bus_value = Wp, Wp
    eta = {k: ctx.real(f"eta.{k}", 0, strict=True, typ=(0.5, 1))
           for k in ("htr", "tur", "pmp")}
    fuel, prod, loss = BusStub("fuel"), BusStub("prod"), BusStub("loss")
    fuel.add(htr, eta["htr"], "bus")
    fuel.add(src, 1.0, "bus")
    prod.add(tur, eta["tur"], "component")
    prod.add(pmp, eta["pmp"], base)
    loss.add(snk, 1.0, "component")
    own = {"fuel": fuel, "prod": prod, "loss": loss}
    if side:            # streams entering and leaving by other busses
        for (lb, kind, bn) in side:
            q = Part(ctx, lb, G.get(lb))
            q.kind = "end"
            comps.append(q)
            cs.append(Stream(ctx, lb + ".c", *((q, htr) if kind == "src"
                                               else (htr, q)), "a"))
            own[bn].add(q, 1.0, "bus" if kind == "src" else "component")
    if internal:        # the pump is driven from an internal bus
        inner = BusStub("inner")
        prod.comps = prod.comps.drop(index=[pmp])
        inner.add(pmp, eta["pmp"], base)
        return comps, cs, (fuel, prod, loss, inner), eta, (Wh, Wt, Wp)
    return comps, cs, (fuel, prod, loss), eta, (Wh, Wt, Wp)


def analysis(name, groups, base="bus", second=False, side=None,
             internal=False):
    def fn(ctx):
        import tespy.tools.analyses as A
        comps, cs, busses, eta, W = plant(ctx, groups, base, second, side,
                                          internal)
        fuel, prod, loss = busses[:3]
        Wh, Wt, Wp = W
        nw = NW(comps, cs)
        D = {c.label: c for c in comps}
        old = A.categorize_fluids
        A.categorize_fluids = lambda c: c.cat
        try:
            x = A.ExergyAnalysis(nw, E_F=[fuel], E_P=[prod], E_L=[loss],
                                 internal_busses=list(busses[3:]))
            for run in range(2):
                x.analyse(1, 20)
        finally:
            A.categorize_fluids = old
        nd = x.network_data
        EF = Wh / eta["htr"] + cs[0].val
        Pp = Wp / eta["pmp"] if base == "bus" else -Wp * eta["pmp"]
        EP = Wt * eta["tur"] - (0 if internal else Pp)
        EL = cs[3].val
        for (lb, kind, bn) in side or ():
            e = [c for c in cs if c.label == lb + ".c"][0].val
            s = 1 if kind == "src" else -1
            if bn == "fuel":
                EF = EF + s * e
            elif bn == "prod":
                EP = EP - s * e
            else:
                EL = EL - s * e
        ctx.eq("E_F", nd["E_F"] * nd["E_F"], EF * EF)
        ctx.true("E_F>=0", nd["E_F"] >= 0)
        ctx.true("E_P>=0", nd["E_P"] >= 0)
        ctx.eq("E_P", nd["E_P"] * nd["E_P"], EP * EP)
        ctx.eq("E_L", nd["E_L"], EL)
        ED = sum(D[k].E_D for k in ("htr", "tur", "pmp")) + \
            Wh * (1 / eta["htr"] - 1) + Wt * (1 - eta["tur"]) + (
                Wp * (1 / eta["pmp"] - 1) if base == "bus" else
                Wp * (1 - eta["pmp"]))
        ctx.eq("E_D", nd["E_D"], ED)
        if base == "bus" and not internal:
            ctx.eq("closed", EF - EP - EL - nd["E_D"], 0, scale=1e3)
        ctx.eq("epsilon", nd["epsilon"] * nd["E_F"], nd["E_P"])
        for k in ("htr", "tur", "pmp"):
            r = x.component_data.loc[k]
            p = D[k]
            ctx.eq(f"component[{k}].E_F", r["E_F"], p.E_F)
            ctx.eq(f"component[{k}].E_P", r["E_P"], p.E_P)
            ctx.eq(f"component[{k}].E_D", r["E_D"], p.E_D)
            ctx.eq(f"component[{k}].y", r["y_Dk"] * nd["E_F"], p.E_D)
            ctx.eq(f"component[{k}].y*", r["y*_Dk"] * nd["E_D"], p.E_D)
            q = x.bus_data.loc[k]
            a = x.aggregation_data.loc[k]
            ctx.eq(f"bus[{k}].E_D", q["E_D"], q["E_F"] - q["E_P"])
            ctx.eq(f"aggregation[{k}].E_D", a["E_D"], p.E_D + q["E_D"])
            ctx.eq(f"aggregation[{k}]", a["E_F"] - a["E_P"], a["E_D"])
        for k, W_, bs in (("htr", Wh, "bus"), ("tur", Wt, "component"),
                          ("pmp", Wp, base)):
            q = x.bus_data.loc[k]
            if bs == "bus":
                ctx.eq(f"bus[{k}].E_P", q["E_P"], W_)
                ctx.eq(f"bus[{k}].E_F", q["E_F"] * eta[k], W_)
            else:
                ctx.eq(f"bus[{k}].E_F", q["E_F"], W_)
                ctx.eq(f"bus[{k}].E_P", q["E_P"], W_ * eta[k])
        # functional groups
        members = {}
        for c in comps:
            members.setdefault(c.fkt_group, []).append(c)
        ctx.true("groups", set(x.group_data.index) == set(members))
        for g, ms in members.items():
            inside = sum(c.val for c in cs if c.target in ms and
                         c.source not in ms)
            for c in ms:
                for b in busses:
                    if c in b.comps.index and \
                            b.comps.loc[c, "base"] == "bus":
                        e = b.comps.loc[c, "char"].evaluate(0)
                        inside = inside + sum(c.E_bus.values()) / e
            ctx.eq(f"group[{g}].E_in", x.group_data.loc[g, "E_in"], inside)
            d = sum(x.aggregation_data.loc[c.label, "E_D"] for c in ms
                    if c.kind == "part")
            ctx.eq(f"group[{g}].E_D", x.group_data.loc[g, "E_D"], d,
                   scale=1)
            ctx.eq(f"group[{g}]", x.group_data.loc[g, "E_out"],
                   x.group_data.loc[g, "E_in"] - d, scale=1)
    return Harness(f"analysis[{name}]", fn, repl=lambda: [], conc=6,
                   bounded="this plant")


def twice():
    """a component on two of the busses is refused, so are reserved names"""
    def fn(ctx):
        import tespy.tools.analyses as A
        from tespy.tools.helpers import TESPyNetworkError
        for case in ("two busses", "group", "bus label", "no fuel",
                     "no product"):
            comps, cs, (fuel, prod, loss), eta, W = plant(
                ctx, {"tur": "E_D"} if case == "group" else {}, "bus",
                False)
            if case == "two busses":
                fuel.add(comps[2], 1.0, "bus")
            if case == "bus label":
                prod.label = "E_L"
            old = A.categorize_fluids
            A.categorize_fluids = lambda c: c.cat
            try:
                x = A.ExergyAnalysis(
                    NW(comps, cs), E_F=[] if case == "no fuel" else [fuel],
                    E_P=[] if case == "no product" else [prod], E_L=[loss])
                x.analyse(1, 20)
                ok = False
            except (TESPyNetworkError, ValueError):
                ok = True
            finally:
                A.categorize_fluids = old
            ctx.true(f"refused[{case}]", ok)
    return Harness("analysis[refused]", fn, sym=False, conc=1,
                   bounded="these mistakes")


ADIABATIC = ("Turbine", "Pump", "Compressor", "Valve", "HeatExchanger",
             "Condenser", "Merge", "Drum")


def gouy_stodola(name):
    """destruction in a solved network is ambient temperature times entropy
    production, whatever the ambient temperature"""
    def fn(ctx):
        from tespy.connections import Bus
        from tespy.tools.analyses import ExergyAnalysis
        np.random.seed(5)
        n = nets.build(name)
        nw = n.nw
        first, last = list(n.comp.values())[0], list(n.comp.values())[-1]
        fuel, prod = Bus("fuel"), Bus("product")
        fuel.add_comps({"comp": first, "base": "bus"})
        prod.add_comps({"comp": last})
        nw.add_busses(fuel, prod)
        nets.solve(nw)
        with nets.quiet():
            x = ExergyAnalysis(nw, E_F=[fuel], E_P=[prod])
        for Tamb in (1, 8, 25, 38, 90):
            with nets.quiet():
                x.analyse(1.013, Tamb)
            T0 = Tamb + 273.15
            for cp in nw.comps["object"]:
                if type(cp).__name__ not in ADIABATIC or cp.E_D != cp.E_D:
                    continue
                S = sum(c.m.val_SI * c.s.val_SI for c in cp.outl) - sum(
                    c.m.val_SI * c.s.val_SI for c in cp.inl)
                E = max(abs(c.m.val_SI * c.h.val_SI)
                        for c in cp.inl + cp.outl)
                ctx.eq(f"E_D[{cp.label},{Tamb}]", x.component_data.loc[
                    cp.label, "E_D"], T0 * S, tol=1e-5, scale=E)
            for c in nw.conns["object"]:
                r = x.connection_data.loc[c.label]
                ctx.eq("shares", r["e_PH"], r["e_T"] + r["e_M"], tol=1e-9,
                       scale=1e3)
                ctx.eq("flow", r["E_PH"], r["e_PH"] * c.m.val_SI, tol=1e-9,
                       scale=1e3)
    return Harness(f"entropy-production[{name}]", fn, sym=False, conc=1,
                   bounded="this network, five ambient temperatures")


def closed_cycle():
    """steam cycle: fuel = product + destruction + loss"""
    def fn(ctx):
        from tespy.connections import Bus
        from tespy.tools.analyses import ExergyAnalysis
        np.random.seed(5)
        n = nets.build("rankine")
        heat = Bus("heat")
        heat.add_comps({"comp": n.comp["boiler"], "base": "bus"})
        n.nw.add_busses(heat)
        n.comp["boiler"].set_attr(dissipative=False)
        n.comp["condenser"].set_attr(dissipative=True)
        nets.solve(n.nw)
        x = ExergyAnalysis(n.nw, E_F=[heat], E_P=[n.bus])
        for Tamb in (10, 25, 40):
            with nets.quiet():
                x.analyse(1, Tamb)
            d = x.network_data
            ctx.eq(f"closed[{Tamb}]", d["E_F"], d["E_P"] + d["E_D"] +
                   d["E_L"], tol=1e-6)
            ctx.eq("epsilon", d["epsilon"], d["E_P"] / d["E_F"], tol=1e-9)
            p = x.bus_data.loc[["turbine", "pump"]]
            ctx.eq("power", d["E_P"], -n.bus.P.val, tol=1e-6)
            ctx.true("sign", bool((p["E_D"] > 0).all()))
            ctx.true("groups", bool((x.group_data["E_D"] >= -1e-3).all()))
    return Harness("analysis[closed cycle]", fn, sym=False, conc=1,
                   bounded="this network")


def harnesses(tier):
    out = [machine(k) for k in ("Turbine", "Compressor", "Pump")]
    out += [valve(), drum(), ends("Source"), ends("Sink"), merge(2),
            merge(3)]
    out += [neutral(k) for k in ("Splitter", "CycleCloser")]
    out += [exchanger(k) for k in ("HeatExchanger", "Condenser",
                                   "Desuperheater")]
    out += [simple(k, d) for k in ("SimpleHeatExchanger", "Pipe",
                                   "SolarCollector", "ParabolicTrough")
            for d in (None, True, False)]
    out += [combustion(k) for k in ("CombustionChamber",
                                    "DiabaticCombustionChamber",
                                    "CombustionEngine")]
    out += [electrolyzer()]
    out += [entropy_through(k) for k in ("Turbine", "Compressor", "Pump",
                                         "Valve")]
    out += [entropy_simple("SimpleHeatExchanger"), entropy_simple("Pipe"),
            entropy_exchanger("HeatExchanger"),
            entropy_exchanger("Condenser"),
            entropy_merge(2, ("H2O",)), entropy_merge(3, ("H2O",)),
            entropy_merge(2, ("N2", "O2"))]
    out += [entropy_chamber(k) for k in ("CombustionChamber",
                                         "DiabaticCombustionChamber",
                                         "CombustionEngine")]
    out += [analysis("apart", {}), analysis("apart,motor", {},
                                            "component"),
            analysis("grouped", {"htr": "A", "tur": "B", "pmp": "B"}),
            analysis("two streams", {"htr": "A", "tur": "B"}, second=True),
            analysis("loss on both sides", {},
                     side=[("in", "src", "loss"), ("out", "snk", "loss")]),
            analysis("fuel on both sides", {},
                     side=[("in", "src", "fuel"), ("out", "snk", "fuel")]),
            analysis("product on both sides", {},
                     side=[("in", "src", "prod"), ("out", "snk", "prod")]),
            analysis("internal bus", {}, internal=True),
            analysis("internal bus,grouped", {"pmp": "B", "tur": "B"},
                     "component", internal=True),
            twice(), closed_cycle()]
    out += [gouy_stodola(k) for k in nets.NETS if k not in (
        "combustion", "mixing", "fuel cell", "electrolyzer", "engine",
        "gas turbine")]
    return out
