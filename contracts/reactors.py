"""C11: combustion chambers, combustion engine, fuel cell, electrolyzer.

Oracles: element balances with the composition table of the fuels below and
standard enthalpies of formation; they are written independently of the
stoichiometry code in /repo.
"""
import math

import numpy as np

from vc.bench import Bench, char_line
from vc.engine import is_sym
from vc.runner import Harness

from . import jacobian, residual, results
from .equations import Eq, h, m, p, pr_spec, zeta_spec
from .jacobian import repl

# name: carbon, hydrogen, enthalpy of formation (gaseous) in kJ/mol
FUELS = {"hydrogen": (0, 2, 0.0), "methane": (1, 4, -74.6),
         "ethane": (2, 6, -84.0), "propane": (3, 8, -103.8),
         "butane": (4, 10, -125.7), "nDodecane": (12, 26, -289.4)}
ALIAS = {"H2": "hydrogen", "CH4": "methane"}
HF_CO2, HF_H2O = -393.51, -241.826


def fuel(f):
    return FUELS[ALIAS.get(f, f)]


def MM(b, f):
    for c in b.conns:
        if f in c.fluid.wrapper:
            return c.fluid.wrapper[f]._molar_mass


def lhv(b, f):
    C, H, hf = fuel(f)
    return (hf - C * HF_CO2 - H / 2 * HF_H2O) / MM(b, f) * 1000


def x(c, f):
    return c.fluid.val[f]


class Side:
    """combustion side of a component"""

    def __init__(self, b):
        self.b = b
        if len(b.inl) == 4:
            self.i, self.o = b.inl[2:], b.outl[2]
        else:
            self.i, self.o = b.inl, b.outl[0]
        self.fluids = list(self.o.fluid.val)
        self.fuels = [f for f in self.fluids
                      if f in ALIAS or f in FUELS]

    def n(self, f):
        return sum(m(c) * x(c, f) for c in self.i) / MM(self.b, f)

    def stoich(self):
        return sum(self.n(f) * (fuel(f)[0] + fuel(f)[1] / 4)
                   for f in self.fuels)

    def ti(self):
        return sum(lhv(self.b, f) * (
            sum(m(c) * x(c, f) for c in self.i) - m(self.o) * x(self.o, f))
            for f in self.fuels)


def href(c):
    import tespy.tools.fluid_properties.functions as F
    return F.h_mix_pT(1e5, 298.15, c.fluid_data, "forced-gas")


def stoich(b):
    """species balances: complete combustion of the share the oxygen
    suffices for"""
    s = Side(b)
    nO, st = s.n("O2"), s.stoich()
    lamb = b.comp.lamb
    L = lamb.val if lamb.is_set else nO / st
    if L < 1:
        phi, used = nO / st, nO
    else:
        phi, used = 1, nO / L
    out = []
    for f in s.fluids:
        bal = sum(m(c) * x(c, f) for c in s.i) - m(s.o) * x(s.o, f)
        if f == "O2":
            bal = bal - used * MM(b, f)
        elif f in s.fuels:
            bal = bal - phi * s.n(f) * MM(b, f)
        elif f == "CO2":
            bal = bal + phi * MM(b, f) * sum(
                s.n(k) * fuel(k)[0] for k in s.fuels)
        elif f == "H2O":
            bal = bal + phi * MM(b, f) * sum(
                s.n(k) * fuel(k)[1] / 2 for k in s.fuels)
        out.append(bal)
    return out


def energy(b, eta=1):
    s = Side(b)
    return sum(m(c) * (h(c) - href(c)) for c in s.i) - m(s.o) * (
        h(s.o) - href(s.o)) + s.ti() * eta


def mass(b):
    s = Side(b)
    return m(s.i[0]) + m(s.i[1]) - m(s.o)


def chamber(b):
    return [mass(b)] + [p(c) - p(b.outl[0]) for c in b.inl] + stoich(b) + [
        energy(b)]


def diabatic(b):
    return [mass(b)] + stoich(b)


def expr(b):
    d = b.comp.P.design
    return 1 if not is_sym(d) and math.isnan(d) else b.comp.P.val / d


def ch(b, k):
    return b.comp.get_attr(k).char_func.evaluate(expr(b))


def q(b, k):
    return m(b.inl[k]) * (h(b.outl[k]) - h(b.inl[k]))


def engine(b):
    s = Side(b)
    ti = s.ti()
    c = b.comp
    return [mass(b)] + [p(k) - p(s.o) for k in s.i] + stoich(b) + [
        energy(b) - q(b, 0) - q(b, 1) + c.P.val + c.Qloss.val,
        ti + ch(b, "tiP_char") * c.P.val,
        ti * ch(b, "Q1_char") - ch(b, "tiP_char") * q(b, 0),
        ti * ch(b, "Q2_char") - ch(b, "tiP_char") * q(b, 1),
        ti * ch(b, "Qloss_char") + ch(b, "tiP_char") * c.Qloss.val]


# ------------------------------------------------------ electrochemistry
def h0(c):
    return c.fluid.wrapper[next(iter(c.fluid.wrapper))].h_pT(1e5, 298.15)


def e0(b):
    """reaction enthalpy of water per mass of hydrogen, positive"""
    return 286000.0 / MM(b, "H2")


def o2share(b):
    a, c = MM(b, "O2"), MM(b, "H2")
    return a / (a + 2 * c)


def fc_P(b):
    (w, o, k), (wo, out) = b.inl, b.outl
    return m(k) * (h(k) - h0(k) + e0(b)) + m(o) * (h(o) - h0(o)) - \
        m(w) * (h(wo) - h(w)) - m(out) * (h(out) - h0(out))


def fuelcell(b):
    (w, o, k), (wo, out) = b.inl, b.outl
    return [o2share(b) * m(out) - m(o), (1 - o2share(b)) * m(out) - m(k),
            b.comp.P.val - fc_P(b), p(out) - p(o), p(out) - p(k)]


def el_P(b):
    (w, fw), (wo, o, k) = b.inl, b.outl
    return m(k) * (h(k) - h0(k) + e0(b)) + m(o) * (h(o) - h0(o)) + \
        m(w) * (h(wo) - h(w)) - m(fw) * (h(fw) - h0(fw))


def T(c):
    return c.fluid.wrapper[next(iter(c.fluid.wrapper))].T_ph(p(c), h(c))


def electrolyzer(b):
    (w, fw), (wo, o, k) = b.inl, b.outl
    return [o2share(b) * m(fw) - m(o), (1 - o2share(b)) * m(fw) - m(k),
            b.comp.P.val - el_P(b), p(fw) - p(o), p(fw) - p(k), T(o) - T(k)]


XT = {"CH4": (0.05, 0.1), "H2": (0.01, 0.05), "O2": (0.3, 0.4),
      "N2": (0.2, 0.3), "CO2": (0.05, 0.1), "H2O": (0.1, 0.2)}
RICH = {"O2": (0.01, 0.05), "CH4": (0.3, 0.4)}


def gas(fluids, rich=False, **kw):
    t = dict(XT, **(RICH if rich else {}))
    d = dict(fluids=fluids, fluid_vars=True, mixing_rule="ideal-cond", typ={
        f"{c}.x[{f}]": t[f] for c in ("i0", "i1", "o0", "i2", "i3", "o2")
        for f in fluids})
    d.update(kw)
    return d


G1 = ("CH4", "O2", "N2", "CO2", "H2O")
G2 = ("CH4", "H2", "O2", "CO2", "N2", "H2O")
HH = ("H2", "O2", "CO2", "N2", "H2O")
ENG = dict(fluidsets={k: ("H2O",) for k in ("i0", "i1", "o0", "o1")},
           share={0: 0, 1: 1})
FCB = dict(share={0: 0}, share_fluid={0: 0},
           fluidsets={"i1": ("O2",), "i2": ("H2",)})
ELB = dict(share={0: 0}, share_fluid={0: 0},
           fluidsets={"o1": ("O2",), "o2": ("H2",)})
EQS = []


def E(cls, *a, **k):
    # the mass fraction derivatives of the energy balance are approximated
    # on purpose (with them the solver no longer converges in the examples)
    k.setdefault("free_x", "o2.h" if cls == "CombustionEngine" else "o0.h")
    EQS.append(Eq(cls, *a, **k))


def none(b):
    return []


def lam_spec(b):
    s = Side(b)
    return [s.n("O2") / s.stoich() - b.comp.lamb.val]


def ti_spec(b):
    return [b.comp.ti.val - Side(b).ti()]


def burning(b):
    s = Side(b)
    b.ctx.assume(s.stoich() > 0)


def ti_pos(b):
    burning(b)
    b.ctx.assume(Side(b).ti() != 0)


for cls, mand in (("CombustionChamber", chamber),
                  ("DiabaticCombustionChamber", diabatic)):
    for tag, fl, rich in (("lean", G1, False), ("rich", G1, True),
                          ("two-fuels", G2, False), ("h2-rich", HH, True)):
        E(cls, "mandatory:" + tag, mand=mand, spec=none, no_result=True,
          bench=gas(fl, rich), assume=burning)
    E(cls, "lamb", {"lamb": (1.2, 3)}, mand=mand, spec=lam_spec,
      bench=gas(G1), assume=burning)
    E(cls, "lamb<1", {"lamb": (0.3, 0.8)}, mand=mand, spec=lam_spec,
      bench=gas(G2), assume=burning)
    E(cls, "ti", {"ti": (1e6, 2e6)}, mand=mand, spec=ti_spec,
      bench=gas(G2), assume=burning)
E("DiabaticCombustionChamber", "pr", {"pr": (0.8, 1)}, mand=diabatic,
  spec=pr_spec(), bench=gas(G1), assume=burning)
E("DiabaticCombustionChamber", "eta", {"eta": (0.8, 1)}, mand=diabatic,
  spec=lambda b: [energy(b, b.comp.eta.val)], bench=gas(G2), assume=ti_pos)


def eng(design, P=False, Q=False):
    def f(b):
        b.par("P", typ=(-2e6, -1e6), var=not P)
        b.par("Qloss", typ=(-3e5, -1e5), var=not Q)
        if design:
            d = b.ctx.real("P.design", typ=(-3e6, -2e6))
            b.ctx.assume(d != 0)
            b.comp.P.design = d
        b.chars("tiP_char", "Qloss_char", "Q1_char", "Q2_char")
        for k in ("tiP_char", "Qloss_char", "Q1_char", "Q2_char"):
            b.comp.get_attr(k).is_set = False
            if b.ctx.mode == "conc":        # smooth
                a = 0.1 * (1 + len(k) + ord(k[1]) % 5)
                b.comp.get_attr(k).char_func.evaluate = \
                    lambda x, a=a: a + 0.3 / (1 + x * x)
    return f


CE = "CombustionEngine"
for tag, d, P, Q, fl in (("design", False, False, False, G1),
                         ("offdesign", True, False, False, G1),
                         ("P-fixed", True, True, False, G2),
                         ("Qloss-fixed", True, False, True, G1)):
    E(CE, "mandatory:" + tag, mand=engine, spec=none, no_result=True,
      setup=eng(d, P, Q), assume=burning, bench=gas(fl, **ENG), conc=3)
for key, spec, rng in (
        ("lamb", lam_spec, (1.2, 3)), ("ti", ti_spec, (1e6, 2e6)),
        ("Q1", lambda b: [q(b, 0) + b.comp.Q1.val], (-1e6, -1e5)),
        ("Q2", lambda b: [q(b, 1) + b.comp.Q2.val], (-1e6, -1e5)),
        ("pr1", pr_spec("pr1"), (0.5, 1)),
        ("pr2", pr_spec("pr2", 1, 1), (0.5, 1)),
        ("zeta1", zeta_spec("zeta1"), (1e3, 1e5)),
        ("zeta2", zeta_spec("zeta2", 1, 1), (1e3, 1e5))):
    k = int(key[-1]) - 1 if key[-1] in "12" else None
    E(CE, key, {key: rng}, mand=engine, spec=spec, setup=eng(True),
      assume=burning, bench=gas(G1, **ENG), conc=3,
      res_assume=(lambda b, k=k: b.ctx.assume(abs(m(b.inl[k])) > 0.001))
      if k is not None else None)


def elp(P=False):
    def f(b):
        b.par("P", typ=(1e6, 2e6), var=not P)
    return f


def flow(b):
    b.ctx.assume(abs(m(b.inl[0])) > 0.001)
    for c in b.conns:
        b.ctx.assume(m(c) != 0)
    b.ctx.assume(b.comp.P.val != 0)


for cls, mand, bb, h2, sg in (
        ("FuelCell", fuelcell, FCB, lambda b: b.inl[2], -1),
        ("WaterElectrolyzer", electrolyzer, ELB, lambda b: b.outl[2], 1)):
    for tag, f in (("P-variable", elp()), ("P-fixed", elp(True))):
        E(cls, "mandatory:" + tag, mand=mand, spec=none, no_result=True,
          bench=bb, setup=f)
    E(cls, "Q", {"Q": (-1e6, -1e5)}, mand=mand, bench=bb, setup=elp(),
      spec=lambda b: [q(b, 0) + b.comp.Q.val], res_assume=flow)
    E(cls, "pr", {"pr": (0.5, 1)}, mand=mand, bench=bb, setup=elp(),
      spec=pr_spec(), res_assume=flow)
    E(cls, "zeta", {"zeta": (1e3, 1e5)}, mand=mand, bench=bb, setup=elp(),
      spec=zeta_spec(), res_assume=flow)
    if sg < 0:
        sp = (lambda b, h2=h2: [b.comp.P.val + b.comp.eta.val * m(h2(b)) *
                                e0(b)])
    else:
        sp = (lambda b, h2=h2: [b.comp.P.val * b.comp.eta.val - m(h2(b)) *
                                e0(b)])
    E(cls, "eta", {"eta": (0.5, 1)}, mand=mand, bench=bb, setup=elp(),
      spec=sp, res_assume=flow)
    for tag, var in (("e", ()), ("e_var", ("e",))):
        E(cls, tag, {"e": (1e7, 2e7)}, mand=mand, bench=bb, setup=elp(),
          spec=lambda b, h2=h2: [b.comp.P.val - m(h2(b)) * b.comp.e.val],
          res_assume=flow, var=var, no_result=bool(var))


def el_char(b):
    b.comp.eta.design = d = b.ctx.real("eta.design", 0, strict=True,
                                       typ=(0.5, 0.9))
    o = b.outl[2]
    o.m.design = b.ctx.real("o2.m.design", 0, strict=True, typ=(1, 3))
    elp()(b)


E("WaterElectrolyzer", "eta_char", chars=("eta_char",), mand=electrolyzer,
  bench=ELB, setup=el_char, no_result=True,
  spec=lambda b: [b.comp.P.val - m(b.outl[2]) * e0(b) / (
      b.comp.eta.design * b.comp.eta_char.char_func.evaluate(
          m(b.outl[2]) / b.outl[2].m.design))],
  assume=lambda b: b.ctx.assume(m(b.outl[2]) != 0))


# ----------------------------------------------------------------- lemmas
def elements(cls, fluids, rich, setlamb):
    """zero residuals of the species equations conserve carbon, hydrogen
    and oxygen, whatever the other fluids do"""
    def fn(ctx):
        kw = gas(fluids, rich)
        if cls == CE:
            kw = dict(kw, **ENG)
        b = Bench(ctx, cls, flags=True, **kw)
        if setlamb:
            b.par("lamb", typ=(0.3, 0.8) if rich else (1.2, 2), lo=0)
        if cls == CE:
            eng(True)(b)
        burning(b)
        s = Side(b)
        if setlamb:                     # the specification is met
            if ctx.mode == "conc":
                b.comp.lamb.val = s.n("O2") / s.stoich()
            else:
                ctx.assume(b.comp.lamb.val * s.stoich() == s.n("O2"))
                ctx.assume(b.comp.lamb.val > 0)
        b.preprocess()
        c = b.comp
        r = {f: c.stoichiometry(f) for f in s.fluids}
        n = {f: r[f] / MM(b, f) for f in r}
        net = {f: (sum(m(k) * x(k, f) for k in s.i) - m(s.o) * x(s.o, f)) /
               MM(b, f) for f in s.fluids}

        def bal(d, el):
            t = {"C": {"CO2": 1}, "H": {"H2O": 2},
                 "O": {"CO2": 2, "H2O": 1, "O2": 2}}[el]
            t = dict(t, **{f: fuel(f)["CH".index(el)] for f in s.fuels
                           if el in "CH"})
            return sum(k * d[f] for f, k in t.items())
        for el in "CHO":
            ctx.eq(f"element-{el}", bal(n, el), bal(net, el), tol=1e-9,
                   scale=1.0)
        for f in s.fluids:
            if f not in s.fuels + ["O2", "CO2", "H2O"]:
                ctx.eq("inert", n[f], net[f], tol=1e-9, scale=1.0)
    return Harness(f"elements:{cls}[{','.join(fluids)}|"
                   f"{'rich' if rich else 'lean'}|lamb "
                   f"{'set' if setlamb else 'free'}]", fn, repl=repl)


def fuels_known(f):
    def fn(ctx):
        fl = (f, "O2", "N2", "CO2", "H2O")
        for cls in ("CombustionChamber", "DiabaticCombustionChamber", CE):
            kw = dict(fluids=fl, fluid_vars=True, mixing_rule="ideal-cond",
                      typ={})
            if cls == CE:
                kw.update(ENG)
            b = Bench(ctx, cls, flags=True, **kw)
            if cls == CE:
                eng(False)(b)
            b.preprocess()
            d = b.comp.fuels
            ctx.true(cls + ":fuel-found", set(d) == {f})
            C, H, _ = fuel(f)
            ctx.true(cls + ":atoms", (d[f]["C"], d[f]["H"], d[f]["O"]) ==
                     (C, H, 0))
            ctx.eq(cls + ":lhv", d[f]["LHV"], lhv(b, f), tol=1e-9)
    return Harness("fuel:" + f, fn, sym=False, conc=1,
                   bounded="every supported fuel, enumerated")


def ignored():
    """missing fluids are refused, fuels need to exist"""
    def fn(ctx):
        from tespy.tools.helpers import TESPyComponentError
        for fl in (("O2", "N2", "CO2", "H2O"), ("CH4", "N2", "CO2", "H2O"),
                   ("CH4", "O2", "N2", "CO2"), ("CH4", "O2", "N2", "H2O")):
            b = Bench(ctx, "CombustionChamber", flags=True, fluids=fl,
                      fluid_vars=True, mixing_rule="ideal-cond")
            try:
                b.preprocess()
                ok = False
            except TESPyComponentError:
                ok = True
            ctx.true(f"refused:{fl}", ok)
    return Harness("missing-fluids", fn, sym=False, conc=1,
                   bounded="one missing fluid at a time")


def engine_results():
    """at a solved state the reported power and loss are those solved for"""
    def fn(ctx):
        b = Bench(ctx, CE, flags=True, **gas(G1, **ENG))
        eng(True)(b)
        burning(b)
        b.preprocess()
        c = b.comp
        ti = Side(b).ti()
        if ctx.mode == "conc":
            from math import isclose
            # solve the power equation for the mass fraction of the fuel
            k = b.inl[2]
            rest = ti - lhv(b, "CH4") * m(k) * x(k, "CH4")
            want = -ch(b, "tiP_char") * c.P.val
            k.fluid.val["CH4"] = (want - rest) / lhv(b, "CH4") / m(k)
            k.build_fluid_data()
            ti = Side(b).ti()
            c.Qloss.val = -ti * ch(b, "Qloss_char") / ch(b, "tiP_char")
        else:
            ti = c.calc_ti()
            ctx.assume(ti + ch(b, "tiP_char") * c.P.val == 0)
            ctx.assume(ti * ch(b, "Qloss_char") +
                       ch(b, "tiP_char") * c.Qloss.val == 0)
        P0, Q0 = c.P.val, c.Qloss.val
        results.solved_state(b)
        ctx.eq("P", c.calc_P(), P0, tol=1e-6)
        ctx.eq("Qloss", c.calc_Qloss(), Q0, tol=1e-6)
    return Harness("engine-power-and-loss", fn, repl=repl, conc=3)


def loss():
    """reported heat loss closes the energy balance of the chamber"""
    def fn(ctx):
        b = Bench(ctx, "DiabaticCombustionChamber", flags=True, **gas(G2))
        ti_pos(b)
        b.preprocess()
        results.solved_state(b)
        b.comp.calc_parameters()
        ctx.eq("Q_loss", b.comp.Q_loss.val, -energy(b), tol=1e-6)
        ctx.eq("ti", b.comp.ti.val, Side(b).ti(), tol=1e-9)
    return Harness("heat-loss", fn, repl=repl, conc=3)


def mass_eqs(cls):
    """the number of mass flow equations matches the equations handed out,
    whichever mass flows the user fixed; each is a reaction balance"""
    def fn(ctx):
        bb = FCB if cls == "FuelCell" else ELB
        names = ("i1.m", "i2.m", "o1.m") if cls == "FuelCell" else (
            "i1.m", "o1.m", "o2.m")
        for k in range(8):
            b = Bench(ctx, cls, flags=True, **bb)
            elp()(b)
            for j, nme in enumerate(names):
                for v in b.vars:
                    if v["name"] == nme and k >> j & 1:
                        v["dc"].is_var = False
                        v["dc"].J_col = 9999
            b.preprocess()
            con = b.comp.constraints["mass_flow_constraints"]
            res = list(con["func"]())
            ctx.true(f"number[{k}]", len(res) == con["num_eq"])
            full = (fuelcell if cls == "FuelCell" else electrolyzer)(b)[:2]
            # an equation is dropped only if nothing in it is variable
            inv = [{"i1.m", "o1.m"}, {"i2.m", "o1.m"}] \
                if cls == "FuelCell" else [{"i1.m", "o1.m"},
                                           {"i1.m", "o2.m"}]
            fixed = {n for j, n in enumerate(names) if k >> j & 1}
            want = [f for f, s in zip(full, inv) if not s <= fixed]
            ctx.true(f"kept[{k}]", len(want) == len(res))
            for a, c in zip(res, want):
                residual.same(ctx, f"balance[{k}]", a, c)
            bad = [kk for kk in b.comp.jacobian
                   if kk[1] == 9999 or kk[0] >= b.comp.num_eq]
            ctx.true(f"columns[{k}]", not bad)
    return Harness(f"mass-equations:{cls}", fn, repl=repl, conc=2)


ATOMS = {"CH4": {"C": 1, "H": 4}, "H2": {"H": 2}, "O2": {"O": 2},
         "H2O": {"H": 2, "O": 1}, "water": {"H": 2, "O": 1},
         "CO2": {"C": 1, "O": 2}, "N2": {"N": 2}, "Ar": {"Ar": 1}}
MOL = {"CH4": 16.0428, "H2": 2.01588, "O2": 31.9988, "H2O": 18.015268,
       "water": 18.015268, "CO2": 44.0098, "N2": 28.01348, "Ar": 39.948}


def converged(name, **spec):
    """elements across the reactor of a solved network"""
    def fn(ctx):
        import numpy as np

        from . import nets
        np.random.seed(6)
        n = nets.build(name)
        for lb, k in spec.items():
            n.comp[lb].set_attr(**k)
        nets.solve(n.nw)
        ctx.true("converged", bool(n.nw.converged))
        for cp in n.comp.values():
            if type(cp).__name__ not in nets.REACT:
                continue
            flows = [(c, 1) for c in cp.inl] + [(c, -1) for c in cp.outl]
            size = {}
            net = {}
            for c, s in flows:
                for f, x in c.fluid.val.items():
                    for a, k in ATOMS[f].items():
                        q = c.m.val_SI * x / MOL[f] * k
                        net[a] = net.get(a, 0) + s * q
                        size[a] = size.get(a, 0) + abs(q)
            for a in net:
                ctx.eq(f"element[{cp.label}.{a}]", net[a], 0, tol=2e-5,
                       scale=max(size[a], 1e-3))
            for c in cp.outl:
                ctx.eq("fractions", sum(c.fluid.val.values()), 1, tol=1e-6)
                ctx.true("no-negative", min(c.fluid.val.values()) >= -1e-9)
            ctx.eq(f"mass[{cp.label}]", sum(s * c.m.val_SI
                                            for c, s in flows), 0,
                   tol=1e-5, scale=cp.outl[0].m.val_SI)
            if hasattr(cp, "lamb"):
                k = 2 if len(cp.inl) == 4 else 0
                need = have = heat = 0
                for c in cp.inl[k:]:
                    for f, x in c.fluid.val.items():
                        q = c.m.val_SI * x / MOL[f]
                        a = ATOMS[f]
                        if f in ("CH4", "H2"):
                            need += q * (a.get("C", 0) + a["H"] / 4)
                            heat += q * {"CH4": 802.6e6,
                                         "H2": 241.8e6}[f]
                        elif f == "O2":
                            have += q
                burnt = min(1, have / need)
                ctx.eq("lamb", cp.lamb.val, have / need, tol=1e-5)
                ctx.eq("ti", cp.ti.val, heat * burnt, tol=2e-3)
    tag = "".join(f",{k}={v}" for d in spec.values() for k, v in d.items())
    return Harness(f"network[{name}{tag}]", fn, sym=False, conc=1,
                   bounded="this network")


def harnesses(tier):
    out = jacobian.harnesses(tier, EQS) + residual.harnesses(tier, EQS) + \
        results.harnesses(tier, EQS)
    for cls in ("CombustionChamber", "DiabaticCombustionChamber", CE):
        for fl, rich in ((G1, False), (G1, True), (G2, True), (HH, True)):
            for sl in (False, True):
                out.append(elements(cls, fl, rich, sl))
    out += [fuels_known(f) for f in list(FUELS) + list(ALIAS)]
    out += [ignored(), engine_results(), loss()]
    out += [mass_eqs(c) for c in ("FuelCell", "WaterElectrolyzer")]
    out += [converged("combustion"), converged("engine"),
            converged("gas turbine"), converged("fuel cell"),
            converged("electrolyzer"),
            converged("combustion", chamber={"lamb": 1.0}),
            converged("gas turbine", chamber={"lamb": 5.0}),
            converged("engine", engine={"lamb": 1.6})]
    return out
