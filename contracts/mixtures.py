"""C10: mixture rules, property dispatch, inverse functions, exergies."""
import math

from vc.engine import cur, is_sym
from vc.fluid import FakeWrapper
from vc.runner import Harness

from .equations import log

ERR = 1e-6
DRY = {"N2": 0.028, "O2": 0.032, "Ar": 0.04, "CO2": 0.044}
RULES = ("ideal", "ideal-cond", "incompressible")


def F():
    import tespy.tools.fluid_properties.functions as f
    return f


class W(FakeWrapper):
    """back end with arbitrary molar mass; saturation line monotone and
    smooth in concrete runs"""

    def p_sat(self, T):
        r = self._u("p_sat", (T,), True)
        return r if r is not None else 611.0 * math.exp(
            17.27 * (T - 273.15) / (T - 35.85))

    def h_pT(self, p, T):
        r = self._u("h_pT", (p, T))
        return r if r is not None else 1000.0 * (1 + len(self.fluid)) * (
            T - 273.15) + 0.2 * (T - 273.15) ** 2 + 1e-4 * p

    def s_pT(self, p, T):
        r = self._u("s_pT", (p, T))
        return r if r is not None else 1000.0 * (
            1 + len(self.fluid)) * math.log(T / 273.15) - 280.0 * math.log(
                p / 1e5)

    def d_pT(self, p, T):
        r = self._u("d_pT", (p, T), True)
        return r if r is not None else p / (280.0 + len(self.fluid)) / T


def mix(ctx, fluids, tiny=(), pure=False):
    """fluid data with arbitrary molar masses and mass fractions; fluids in
    `tiny` are listed, but absent"""
    fd = {}
    rest = 1
    names = [f for f in fluids if f not in tiny]
    for f in fluids:
        w = W(f)
        w._molar_mass = ctx.real(f"M[{f}]", 0, strict=True,
                                 typ=(0.002, 0.06))
        w._aliases = ["H2O", "water", "Water", "WATER"] \
            if f in ("H2O", "water") else [f, f.upper()]
        w._T_min = 200.0 + len(f)
        w._T_max = 1900.0 + len(f)
        x = 0.0
        if f not in tiny:
            if f == names[-1]:
                x = rest
            else:
                x = ctx.real(f"x[{f}]", typ=(0.1, 0.4))
                ctx.assume(x > ERR)
                rest = rest - x
        fd[f] = {"wrapper": w, "mass_fraction": x}
    ctx.assume(fd[names[-1]]["mass_fraction"] > ERR)
    return fd


def state(ctx, T=(290, 600), p=(1e5, 1e6)):
    return (ctx.real("p", 0, strict=True, typ=p),
            ctx.real("T", 0, strict=True, typ=T))


def present(fd):
    return {f: d for f, d in fd.items()
            if is_sym(d["mass_fraction"]) or d["mass_fraction"] > ERR}


def moles(fd):
    n = {f: d["mass_fraction"] / d["wrapper"]._molar_mass
         for f, d in present(fd).items()}
    t = sum(n.values())
    return {f: k / t for f, k in n.items()}


def water(fd):
    for f in present(fd):
        if f in ("H2O", "water"):
            return f


class Phases:
    """vapour-liquid split: the gas is saturated with water"""

    def __init__(self, p, T, fd):
        y = moles(fd)
        self.w = w = water(fd)
        self.liq = 0
        if w is None or not T < fd[w]["wrapper"]._T_crit:
            return
        ps = fd[w]["wrapper"].p_sat(T)
        if not ps < p * y[w]:
            return
        dry = sum(y[f] for f in y if f != w)
        gas = dry / (1 - ps / p)            # moles of gas per mole
        self.molar_liq = 1 - gas
        M = sum(y[f] * fd[f]["wrapper"]._molar_mass for f in y)
        self.liq = self.molar_liq * fd[w]["wrapper"]._molar_mass / M
        self.y = {f: (y[f] / gas if f != w else ps / p) for f in y}
        self.vap = fd[w]["mass_fraction"] - self.liq


def mol_pp(p, T, fd, prop):
    y = moles(fd)
    return {f: getattr(d["wrapper"], prop)(p * y[f], T)
            for f, d in present(fd).items()}


def x(fd, f):
    return fd[f]["mass_fraction"]


def o_ideal(prop, p, T, fd):
    v = mol_pp(p, T, fd, prop)
    return sum(x(fd, f) * v[f] for f in v)


def o_incomp(prop, p, T, fd):
    return sum(x(fd, f) * getattr(d["wrapper"], prop)(p, T)
               for f, d in present(fd).items())


def o_cond(prop, p, T, fd):
    ph = Phases(p, T, fd)
    if is_sym(ph.liq) or ph.liq:
        q = getattr(fd[ph.w]["wrapper"], prop.replace("pT", "QT"))
        return ph.liq * q(0, T) + ph.vap * q(1, T) + sum(
            x(fd, f) * getattr(d["wrapper"], prop)(p * ph.y[f], T)
            for f, d in present(fd).items() if f != ph.w)
    return o_ideal(prop, p, T, fd)


def o_v(rule, p, T, fd):
    if rule == "incompressible":
        return sum(x(fd, f) / d["wrapper"].d_pT(p, T)
                   for f, d in present(fd).items())
    if rule == "ideal-cond":
        ph = Phases(p, T, fd)
        if is_sym(ph.liq) or ph.liq:
            w = fd[ph.w]["wrapper"]
            gas = w.d_QT(1, T) + sum(
                d["wrapper"].d_pT(p * ph.y[f], T)
                for f, d in present(fd).items() if f != ph.w)
            return ph.liq / w.d_QT(0, T) + (1 - ph.liq) / gas
    return 1 / sum(mol_pp(p, T, fd, "d_pT").values())


def o_visc(rule, p, T, fd):
    if rule == "incompressible":
        return o_incomp("viscosity_pT", p, T, fd)
    y = moles(fd)
    wt = {f: y[f] * fd[f]["wrapper"]._molar_mass ** 0.5 for f in y}
    return sum(wt[f] * fd[f]["wrapper"].viscosity_pT(p, T)
               for f in wt) / sum(wt.values())


def o_h(rule, p, T, fd, prop="h_pT"):
    return {"ideal": o_ideal, "ideal-cond": o_cond,
            "incompressible": o_incomp}[rule](prop, p, T, fd)


def away(ctx, p, T, fd):
    """exclude a liquid share within the precision of the code"""
    ph = Phases(p, T, fd)
    if is_sym(ph.liq) or ph.liq:
        ctx.assume(ph.liq > ERR)
        ctx.assume(ph.vap > 0)


SETS = [("N2", "O2"), ("N2", "O2", "CO2"), ("H2O", "N2"),
        ("N2", "water", "O2"), ("N2", "O2", "Ar", "CO2", "H2O")]


def direct(rule, fluids, tiny=(), cold=False):
    def fn(ctx):
        fd = mix(ctx, fluids, tiny)
        p, T = state(ctx, (275, 310) if cold else (400, 900),
                     (1e5, 1e6) if cold else (1e5, 2e5))
        if rule == "ideal-cond":
            away(ctx, p, T, fd)
        f = F()
        ctx.eq("h", f.h_mix_pT(p, T, fd, rule), o_h(rule, p, T, fd),
               tol=1e-7)
        ctx.eq("s", f.s_mix_pT(p, T, fd, rule),
               o_h(rule, p, T, fd, "s_pT"), tol=1e-7)
        ctx.eq("v", f.v_mix_pT(p, T, fd, rule), o_v(rule, p, T, fd),
               tol=1e-7)
        ctx.eq("viscosity", f.viscosity_mix_pT(p, T, fd, rule),
               o_visc(rule, p, T, fd), tol=1e-7)
    tag = "+".join(fluids) + ("|without " + ",".join(tiny) if tiny else "")
    return Harness(f"mixture:{rule}[{tag}{'|cold' if cold else ''}]", fn,
                   repl=lambda: [], conc=6)


def forced(fluids, cold):
    """reference enthalpies of reactions: water stays vapour"""
    def fn(ctx):
        fd = mix(ctx, fluids)
        p, T = state(ctx, (275, 310) if cold else (400, 900),
                     (1e5, 1e6) if cold else (1e5, 2e5))
        y = moles(fd)
        e = 0
        for f, d in present(fd).items():
            w = d["wrapper"]
            if f == "H2O" and p * y[f] >= w._p_min and \
                    T <= w.T_sat(p * y[f]):
                e = e + x(fd, f) * w.h_QT(1, T)
            else:
                e = e + x(fd, f) * w.h_pT(p * y[f], T)
        ctx.eq("h", F().h_mix_pT(p, T, fd, "forced-gas"), e, tol=1e-7)
    return Harness(f"mixture:forced-gas[{'+'.join(fluids)}"
                   f"{'|cold' if cold else ''}]", fn, repl=lambda: [],
                   conc=6)


def newton(derivative, target_value, val0=300, valmin=70, valmax=3000,
           **kw):
    """contract of newton_with_kwargs: a root of the function"""
    ctx = cur()
    kw = {k: v for k, v in kw.items() if k not in (
        "max_iter", "tol_rel", "tol_abs", "tol_mode")}
    n = ctx.data["newton"] = ctx.data.get("newton", 0) + 1
    ctx.data.setdefault("start", []).append((val0, valmin, valmax))
    T = ctx.real(f"T*{n}", 0, strict=True, typ=(300, 400))
    kw[kw["parameter"]] = T
    r = kw["function"](**kw)
    ctx.assume(r == target_value)
    ctx.data.setdefault("roots", []).append(T)
    return T


def nrepl():
    import tespy.tools.helpers as H
    return [(H.newton_with_kwargs, newton)]


def inverse(rule, fluids, what, T0):
    """T(p, h) and T(p, s) invert h(p, T) and s(p, T); the functions built
    on them are those at that temperature"""
    def fn(ctx):
        fd = mix(ctx, fluids)
        f = F()
        p = ctx.real("p", 0, strict=True, typ=(1e5, 2e5))
        if ctx.mode == "conc":
            Tt = ctx.real("T", typ=(420, 800))
            val = (f.h_mix_pT if what == "h" else f.s_mix_pT)(
                p, Tt, fd, rule)
        else:
            val = ctx.real("val", typ=(1e5, 5e5))
        t0 = {"none": None, "zero": 0, "nan": float("nan")}.get(T0, None)
        if T0 == "given":
            t0 = ctx.real("T0", 250, 1500, typ=(300, 900))
        T = (f.T_mix_ph if what == "h" else f.T_mix_ps)(
            p, val, fd, rule, T0=t0)
        if ctx.mode == "conc":
            ctx.eq("temperature", T, Tt, tol=1e-5)
        back = (f.h_mix_pT if what == "h" else f.s_mix_pT)(p, T, fd, rule)
        ctx.eq("inverse", back, val, tol=1e-5)
        if ctx.mode == "sym":
            v0, lo, hi = ctx.data["start"][-1]
            if T0 == "given":
                ctx.eq("start", v0, t0)
            else:
                ctx.true("start-in-range", bool(lo <= v0 <= hi))
            ctx.true("range", bool(
                lo >= max(d["wrapper"]._T_min for d in fd.values()) and
                hi >= min(d["wrapper"]._T_max for d in fd.values()) - 1))
        if what == "h":
            for name, fun in (("s", f.s_mix_ph), ("v", f.v_mix_ph),
                              ("viscosity", f.viscosity_mix_ph)):
                n0 = len(ctx.data.get("roots", []))
                got = fun(p, val, fd, rule, T0=t0)
                if ctx.mode == "sym":
                    ctx.true(name + ":one-inversion",
                             len(ctx.data["roots"]) == n0 + 1)
                    T = ctx.data["roots"][-1]
                pT = {"s": f.s_mix_pT, "v": f.v_mix_pT,
                      "viscosity": f.viscosity_mix_pT}[name]
                ctx.eq(name, got, pT(p, T, fd, rule), tol=1e-5)
                ctx.eq(name + ":at-enthalpy", f.h_mix_pT(p, T, fd, rule),
                       val, tol=1e-5)
    return Harness(f"inverse:{rule}.{what}[{'+'.join(fluids)}|T0 {T0}]", fn,
                   repl=nrepl, conc=5, sym=rule != "ideal-cond" or
                   "H2O" not in fluids,
                   bounded="concrete inversions only" if
                   rule == "ideal-cond" and "H2O" in fluids else None)


def isentropic(rule, fluids):
    def fn(ctx):
        fd = mix(ctx, fluids)
        f = F()
        p1 = ctx.real("p1", 0, strict=True, typ=(1e5, 1.2e5))
        p2 = ctx.real("p2", 0, strict=True, typ=(1.2e5, 1.5e5))
        if ctx.mode == "conc":
            T1 = ctx.real("T", typ=(450, 600))
            h1 = f.h_mix_pT(p1, T1, fd, rule)
        else:
            h1 = ctx.real("h1")
        h2 = f.isentropic(p1, h1, p2, fd, rule)
        if ctx.mode == "sym":
            T1, T2 = ctx.data["roots"][:2]
        else:
            T2 = f.T_mix_ph(p2, h2, fd, rule, T0=T1)
        ctx.eq("state-1", f.h_mix_pT(p1, T1, fd, rule), h1, tol=1e-5)
        ctx.eq("state-2", f.h_mix_pT(p2, T2, fd, rule), h2, tol=1e-5)
        ctx.eq("entropy", f.s_mix_pT(p2, T2, fd, rule),
               f.s_mix_pT(p1, T1, fd, rule), tol=1e-4)
    return Harness(f"isentropic:{rule}[{'+'.join(fluids)}]", fn, repl=nrepl,
                   conc=4)


def pure(others):
    """a single fluid present: its back end decides, whatever the rule"""
    def fn(ctx):
        f = F()
        fl = ("H2O",) + others
        fd = {k: {"wrapper": FakeWrapper(k), "mass_fraction":
                  1.0 if k == "H2O" else 0.0} for k in reversed(fl)}
        w = fd["H2O"]["wrapper"]
        p, T = state(ctx)
        h = ctx.real("h", typ=(4e5, 1e6))
        s = ctx.real("s", typ=(1500, 3000))
        Q = ctx.real("Q", 0, 1, typ=(0, 1))
        p2 = ctx.real("p2", 0, strict=True, typ=(1e5, 1e6))
        for rule in (None, "ideal", "incompressible", "ideal-cond"):
            for name, got, want in (
                    ("T_ph", f.T_mix_ph(p, h, fd, rule), w.T_ph(p, h)),
                    ("T_ps", f.T_mix_ps(p, s, fd, rule), w.T_ps(p, s)),
                    ("h_pT", f.h_mix_pT(p, T, fd, rule), w.h_pT(p, T)),
                    ("h_pQ", f.h_mix_pQ(p, Q, fd, rule), w.h_pQ(p, Q)),
                    ("Q_ph", f.Q_mix_ph(p, h, fd, rule), w.Q_ph(p, h)),
                    ("s_ph", f.s_mix_ph(p, h, fd, rule), w.s_ph(p, h)),
                    ("s_pT", f.s_mix_pT(p, T, fd, rule), w.s_pT(p, T)),
                    ("v_ph", f.v_mix_ph(p, h, fd, rule), 1 / w.d_ph(p, h)),
                    ("v_pT", f.v_mix_pT(p, T, fd, rule), 1 / w.d_pT(p, T)),
                    ("T_sat", f.T_sat_p(p, fd, rule), w.T_sat(p)),
                    ("p_sat", f.p_sat_T(T, fd, rule), w.p_sat(T)),
                    ("visc_ph", f.viscosity_mix_ph(p, h, fd, rule),
                     w.viscosity_ph(p, h)),
                    ("visc_pT", f.viscosity_mix_pT(p, T, fd, rule),
                     w.viscosity_pT(p, T)),
                    ("isentropic", f.isentropic(p, h, p2, fd, rule),
                     w.h_ps(p2, w.s_ph(p, h)))):
                ctx.eq(name, got, want, tol=1e-9)
            ctx.true("phase", f.phase_mix_ph(p, h, fd, rule) == "l")
    return Harness(f"pure[{'+'.join(('H2O',) + others)}]", fn,
                   repl=lambda: [])


def refused():
    """saturation of mixtures and unknown mixing rules are refused"""
    def fn(ctx):
        f = F()
        fd = mix(ctx, ("N2", "O2"))
        for fun, a in ((f.h_mix_pQ, (1e5, 0.5)), (f.Q_mix_ph, (1e5, 1e5)),
                       (f.phase_mix_ph, (1e5, 1e5)), (f.T_sat_p, (1e5,)),
                       (f.p_sat_T, (300,))):
            try:
                fun(*a, fd, "ideal")
                ok = False
            except ValueError:
                ok = True
            ctx.true(fun.__name__ + ":mixture-refused", ok)
        for fun, a in ((f.h_mix_pT, (1e5, 300)), (f.s_mix_pT, (1e5, 300)),
                       (f.v_mix_pT, (1e5, 300)), (f.T_mix_ph, (1e5, 1e5)),
                       (f.viscosity_mix_pT, (1e5, 300)),
                       (f.T_mix_ps, (1e5, 300))):
            for rule in ("bogus", None):
                try:
                    fun(*a, fd, rule)
                    ok = False
                except KeyError:
                    ok = True
                ctx.true(fun.__name__ + ":rule-refused", ok)
    return Harness("refused", fn, sym=False, conc=1,
                   bounded="one mixture, one unknown rule")


R_UNI = 8.314462618


def physical(fluids, rule):
    def fn(ctx):
        fd = mix(ctx, fluids) if len(fluids) > 1 else {
            fluids[0]: {"wrapper": FakeWrapper(fluids[0]),
                        "mass_fraction": 1.0}}
        p, T0 = state(ctx, (420, 440))
        p0 = ctx.real("p0", 0, strict=True, typ=(1e5, 1.1e5))
        h, s = ctx.real("h", typ=(1e5, 1e6)), ctx.real("s", typ=(1e2, 1e3))
        f = F()
        th, me = f.calc_physical_exergy(h, s, p, p0, T0, fd, rule)

        def hs(pp):
            return (f.h_mix_pT(pp, T0, fd, rule),
                    f.s_mix_pT(pp, T0, fd, rule))
        (ha, sa), (hb, sb) = hs(p), hs(p0)
        ctx.eq("thermal", th, (h - ha) - T0 * (s - sa), tol=1e-7)
        ctx.eq("mechanical", me, (ha - hb) - T0 * (sa - sb), tol=1e-7)
    return Harness(f"physical-exergy[{'+'.join(fluids)}|{rule}]", fn,
                   repl=lambda: [])


def chemical(fluids, cold=False, tiny=()):
    def fn(ctx):
        f = F()
        p0 = ctx.real("p0", 0, strict=True, typ=(1e5, 1.1e5))
        T0 = ctx.real("T0", 0, strict=True, typ=(275, 285) if cold
                      else (360, 380))
        if len(fluids) == 1:
            w = W(fluids[0])
            w._molar_mass = ctx.real("M", 0, strict=True, typ=(0.01, 0.05))
            w._aliases = ["x", "NAME", fluids[0]]
            e = [ctx.real(f"e{k}", typ=(1, 900)) for k in range(4)]
            for k in (2, 3):
                tab = {"NAME": [0, "NaN", e[2], e[3], k], "OTHER":
                       [0, 0, 1.0, 2.0, 3]}
                fd = {fluids[0]: {"wrapper": w, "mass_fraction": 1.0}}
                ctx.eq(f"pure[{k}]", f.calc_chemical_exergy(
                    p0, T0, fd, tab, None), e[k] / w._molar_mass * 1000,
                    tol=1e-9)
            return
        fd = mix(ctx, fluids, tiny)
        if ctx.mode == "conc" and cold:
            for k in fd:
                fd[k]["wrapper"]._molar_mass = 0.02
        tab = {}
        for k in fluids:
            al = "WATER" if k in ("H2O", "water") else k.upper()
            tab[al] = [0, "NaN", ctx.real(f"el[{k}]", typ=(1, 9)),
                       ctx.real(f"eg[{k}]", typ=(1, 900)), 3]
            if al == "WATER":
                WT = tab[al]
        ph = Phases(p0, T0, fd)
        y = moles(fd)
        if is_sym(ph.liq) or ph.liq:
            ctx.assume(ph.liq > ERR)
            ctx.assume(ph.vap > 0)
            g, liq = ph.y, ph.molar_liq
            ctx.assume(liq > 0)
            e_l = liq * WT[2]
        else:
            g, liq, e_l = y, 0, 0

        def tabv(k):
            return tab["WATER" if k in ("H2O", "water") else k.upper()][3]
        from tespy.tools.global_vars import gas_constants
        R = gas_constants["uni"]
        ctx.eq("R", R, R_UNI, tol=1e-5)
        # an absent species contributes nothing
        e = e_l + (1 - liq) * sum(
            g[k] * tabv(k) + R * 0.001 * T0 * g[k] * log(g[k]) for k in g)
        M = sum(y[k] * fd[k]["wrapper"]._molar_mass for k in y)
        ctx.eq("mixture", f.calc_chemical_exergy(
            p0, T0, fd, tab, "ideal-cond"), e / M * 1000, tol=1e-7)
    return Harness(f"chemical-exergy[{'+'.join(fluids)}"
                   f"{'|cold' if cold else ''}"
                   f"{'|without ' + tiny[0] if tiny else ''}]", fn,
                   repl=lambda: [], conc=5)


def stream(fluids):
    """exergies of a connection: specific values of its state, times its
    mass flow"""
    def fn(ctx):
        from tespy.components import Sink, Source
        from tespy.connections import Connection
        f = F()
        rule = "ideal-cond" if len(fluids) > 1 else None
        fd = mix(ctx, fluids) if rule else {fluids[0]: {
            "wrapper": W(fluids[0]), "mass_fraction": 1.0}}
        c = Connection(Source("a"), "out1", Sink("b"), "in1")
        c.mixing_rule = rule
        for k, d in fd.items():
            c.fluid.val[k] = d["mass_fraction"]
            c.fluid.wrapper[k] = d["wrapper"]
        if not rule:
            fd[fluids[0]]["wrapper"]._aliases = [fluids[0].upper()]
        c.build_fluid_data()
        p, T0 = state(ctx, (420, 440))
        p0 = ctx.real("p0", 0, strict=True, typ=(1e5, 1.1e5))
        st = {k: ctx.real(k, typ=t) for k, t in (
            ("m", (-5, 5)), ("h", (1e5, 1e6)), ("s", (1e2, 1e3)),
            ("T", (300, 400)))}
        c.p.val_SI = p
        for k, v in st.items():
            c.get_attr(k).val_SI = v
        tab = {k.upper(): [0, "NaN", ctx.real(f"el[{k}]", typ=(1, 9)),
                           ctx.real(f"eg[{k}]", typ=(1, 900)), 3]
               for k in fluids}
        c.get_physical_exergy(p0, T0)
        th, me = f.calc_physical_exergy(st["h"], st["s"], p, p0, T0, fd,
                                        rule)
        m = st["m"]
        for k, v in (("therm", th), ("mech", me), ("physical", th + me)):
            ctx.eq(f"specific[{k}]", getattr(c, "ex_" + k), v, tol=1e-7)
            ctx.eq(f"flow[{k}]", getattr(c, "Ex_" + k), m * v, tol=1e-7)
        c.get_chemical_exergy(p0, T0, tab)
        e = f.calc_chemical_exergy(p0, T0, fd, tab, rule)
        ctx.eq("specific[chemical]", c.ex_chemical, e, tol=1e-7)
        ctx.eq("flow[chemical]", c.Ex_chemical, m * e, tol=1e-7)
        c.get_chemical_exergy(p0, T0, None)
        ctx.eq("no-table", c.Ex_chemical, 0)
        ctx.eq("no-table specific", c.ex_chemical, 0)
        for k, v in st.items():
            ctx.true(f"kept[{k}]", c.get_attr(k).val_SI is v)
    return Harness(f"exergy-of-connection[{'+'.join(fluids)}]", fn,
                   repl=lambda: [], conc=4)


def counting():
    """helpers on fluid data"""
    def fn(ctx):
        from tespy.tools.fluid_properties import helpers as H
        fd = mix(ctx, ("N2", "O2", "CO2", "Ar"), tiny=("CO2",))
        ctx.true("number", H.get_number_of_fluids(fd) == 3)
        ctx.true("single", H.single_fluid(fd) is None)
        y = H.get_molar_fractions(fd)
        o = moles(fd)
        for k in o:
            ctx.eq(f"molar[{k}]", y[k], o[k], tol=1e-9)
        ctx.eq("molar-sum", sum(y.values()), 1, tol=1e-9)
        z = {k: ctx.real(f"z{k}", typ=(0, 1)) for k in fd}
        ctx.eq("molar-mass", H.calc_molar_mass_mixture(fd, z),
               sum(z[k] * fd[k]["wrapper"]._molar_mass for k in z),
               tol=1e-9)
        one = mix(ctx, ("N2", "O2"), tiny=("N2",))
        ctx.true("pure", H.single_fluid(one) == "O2" and
                 H.get_pure_fluid(one) is one["O2"] and
                 H.get_number_of_fluids(one) == 1)
    return Harness("fluid-data", fn, repl=lambda: [])


def harnesses(tier):
    out = [refused(), counting(), stream(("CH4",)), stream(("N2", "O2"))]
    for rule in RULES:
        for s in SETS:
            out.append(direct(rule, s))
            if rule == "ideal-cond" and water({f: {"mass_fraction": 1}
                                               for f in s}):
                out.append(direct(rule, s, cold=True))
        out.append(direct(rule, ("N2", "CO2", "O2"), tiny=("CO2",)))
        out.append(direct(rule, ("H2O", "N2", "O2"), tiny=("H2O",)))
        for t0 in ("none", "given", "zero", "nan"):
            for what in "hs":
                out.append(inverse(rule, ("N2", "O2"), what, t0))
        out.append(inverse(rule, ("N2", "H2O"), "h", "given"))
        out.append(isentropic(rule, ("N2", "O2")))
        out.append(physical(("N2", "O2"), rule))
    out.append(physical(("H2O",), None))
    out += [forced(s, c) for s in (("N2", "O2"), ("H2O", "CO2", "N2"))
            for c in (False, True)]
    out += [pure(o) for o in ((), ("N2",), ("N2", "O2"))]
    out += [chemical(("CH4",)), chemical(("N2", "O2")),
            chemical(("N2", "H2O")), chemical(("N2", "H2O"), True),
            chemical(("water", "O2", "N2"), True),
            chemical(("N2", "CO2", "O2"), tiny=("CO2",))]
    return out
