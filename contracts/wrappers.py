"""C16: the wrappers hand the state to the back end and the property back,
both in SI units."""
import itertools

from vc.engine import Unsupported
from vc.runner import Harness

# property: unit of the back ends that do not use SI
KILO = {"h": 1e3, "s": 1e3, "P": 1e6}


SIZE = {"P": 1e6, "h": 1e6, "s": 1e3, "T": 300, "Q": 1}


class Prop:
    """oracle: the property of the pure fluid as a function of its state"""

    def __init__(self, ctx, kind):
        self.ctx, self.kind = ctx, kind

    def __call__(self, out, **state):
        keys = sorted(state)
        if self.ctx.mode == "conc":
            # some function of the state
            u = 1.7 + 0.1 * (ord(out[0]) % 7)
            for i, k in enumerate(keys):
                u = u * (1 + state[k] / (SIZE[k] * (2 + i))) + 0.3 * i
            return u * SIZE.get(out, 1)
        return self.ctx.fn(f"{out}[{','.join(keys)}]",
                           *[state[k] for k in keys])


class FakeCoolProp:
    """contract of AbstractState: update fixes the state by two inputs, the
    outputs are functions of it; SI units, mass based"""

    def __init__(self, prop, phase=None):
        self.prop = prop
        self.state = None
        self.ph = phase
        self.trivial = {}

    def update(self, pair, a, b):
        import CoolProp as CP
        names = {CP.HmassP_INPUTS: "hP", CP.PT_INPUTS: "PT",
                 CP.PQ_INPUTS: "PQ", CP.QT_INPUTS: "QT",
                 CP.PSmass_INPUTS: "Ps", CP.DmassP_INPUTS: "dP",
                 CP.DmassT_INPUTS: "dT", CP.HmassSmass_INPUTS: "hs",
                 CP.SmassT_INPUTS: "sT"}[pair]
        self.state = dict(zip(names, (a, b)))

    def out(self, k):
        if self.state is None:
            raise ValueError("no state")
        if k in self.state:
            return self.state[k]
        return self.prop(k, **self.state)

    def T(self):
        return self.out("T")

    def p(self):
        return self.out("P")

    def hmass(self):
        return self.out("h")

    def smass(self):
        return self.out("s")

    def rhomass(self):
        return self.out("d")

    def viscosity(self):
        return self.out("mu")

    def Q(self):
        return self.out("Q")

    def phase(self):
        return self.ph

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("AbstractState." + k)

    def keyed_output(self, k):
        import CoolProp as CP
        return self.out({CP.iT: "T", CP.iP: "P", CP.iHmass: "h",
                         CP.iSmass: "s", CP.iDmass: "d", CP.iQ: "Q",
                         CP.iviscosity: "mu"}[k])


def fake_iapws(prop, phase=None):
    """contract of iapws.IAPWS97/95: state and properties in MPa, kJ / kg,
    K; the properties are attributes"""
    class AS:
        def __init__(self, **kw):
            self.state = {{"x": "Q"}.get(k, k): v * KILO.get(k, 1)
                          for k, v in kw.items()}
            self.phase = phase

        def __getattr__(self, k):
            if k not in ("T", "P", "h", "s", "rho", "mu", "x", "v"):
                raise AttributeError(k)
            if k == "v":
                return 1 / prop("d", **self.state)
            n = {"rho": "d", "x": "Q"}.get(k, k)
            if n in self.state:
                return self.state[n] / KILO.get(k, 1)
            return prop(n, **self.state) / KILO.get(k, 1)
    return AS


class FakePyromat:
    """contract of a pyromat instance in J, Pa, kg, K: methods named like
    the property, array of one value"""

    def __init__(self, prop):
        self.prop = prop

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("pyromat." + k)

    def _get(self, k, kw):
        state = {{"p": "P", "x": "Q"}.get(n, n): v for n, v in kw.items()}
        return [self.prop(k, **state)]

    def T(self, **kw):
        return self._get("T", kw)

    def p(self, **kw):
        return self._get("P", kw)

    def h(self, **kw):
        return self._get("h", kw)

    def s(self, **kw):
        return self._get("s", kw)

    def d(self, **kw):
        return self._get("d", kw)

    def x(self, **kw):
        return self._get("Q", kw)


FLUID = {"coolprop": ("CoolPropWrapper", "H2O", None),
         "coolprop if97": ("CoolPropWrapper", "H2O", "IF97"),
         "coolprop CO2": ("CoolPropWrapper", "CO2", "HEOS"),
         "iapws97": ("IAPWSWrapper", "H2O", None),
         "iapws95": ("IAPWSWrapper", "water", "IF95"),
         "pyromat mp": ("PyromatWrapper", "H2O", "mp"),
         "pyromat ig": ("PyromatWrapper", "N2", "ig")}


def make(kind):
    import tespy.tools.fluid_properties.wrappers as W
    cls, fluid, be = FLUID[kind]
    return getattr(W, cls)(fluid, be)


def faked(ctx, kind, prop, phase=None):
    w = make(kind)
    if kind.startswith("coolprop"):
        w.AS = FakeCoolProp(prop, phase)
    elif kind.startswith("iapws"):
        w.AS = fake_iapws(prop, phase)
    else:
        w.AS = FakePyromat(prop)
    if not kind.startswith("pyromat"):
        w._p_crit = ctx.real("p_crit", 0, strict=True, typ=(1e7, 2e7))
        w._T_crit = ctx.real("T_crit", 0, strict=True, typ=(500, 600))
    return w


# method: (property, names of the arguments)
METHODS = {
    "T_ph": ("T", "Ph"), "T_ps": ("T", "Ps"), "h_pQ": ("h", "PQ"),
    "h_ps": ("h", "Ps"), "h_pT": ("h", "PT"), "h_QT": ("h", "QT"),
    "s_QT": ("s", "QT"), "d_ph": ("d", "Ph"), "d_pT": ("d", "PT"),
    "d_QT": ("d", "QT"), "viscosity_ph": ("mu", "Ph"),
    "viscosity_pT": ("mu", "PT"), "s_ph": ("s", "Ph"), "s_pT": ("s", "PT"),
}
LACKS = {"pyromat mp": ("h_pQ", "viscosity_ph", "viscosity_pT"),
         "pyromat ig": ("h_pQ", "viscosity_ph", "viscosity_pT", "s_pT",
                        "h_QT", "s_QT", "d_QT"),
         # not available in CoolProp's IF97
         "coolprop if97": ()}
TYP = {"P": (1e5, 1e6), "h": (2e5, 3e6), "s": (1e3, 6e3), "T": (300, 450),
       "Q": (0.1, 0.9)}


def args(ctx, names, tag=""):
    return [ctx.real(f"{n}{tag}", typ=TYP[n]) for n in names]


def evaluation(kind):
    """each method is the property at its arguments, whatever was evaluated
    before"""
    def fn(ctx):
        prop = Prop(ctx, kind)
        w = faked(ctx, kind, prop)
        for m, (out, names) in METHODS.items():
            if m in LACKS.get(kind, ()):
                continue
            a = args(ctx, names)
            want = prop(out, **dict(zip(names, a)))
            got = getattr(w, m)(*a)
            ctx.eq(m, got, want, tol=1e-12)
            # again, after something else
            w.T_ph(*args(ctx, "Ph", "'"))
            ctx.eq(m + " again", getattr(w, m)(*a), want, tol=1e-12)
        p1, h1, p2 = (ctx.real("p1", typ=TYP["P"]),
                      ctx.real("h1", typ=TYP["h"]),
                      ctx.real("p2", typ=TYP["P"]))
        ctx.eq("isentropic", w.isentropic(p1, h1, p2), prop(
            "h", P=p2, s=prop("s", P=p1, h=h1)), tol=1e-12)
        if kind == "pyromat mp":
            ctx.eq("Q_ph", w.Q_ph(p1, h1), prop("Q", P=p1, h=h1), tol=1e-12)
            T = ctx.real("Ts", typ=TYP["T"])
            ctx.eq("T_boiling", w.T_boiling(p1), prop("T", P=p1, Q=1),
                   tol=1e-12)
            ctx.eq("p_boiling", w.p_boiling(T), prop("P", T=T, Q=1),
                   tol=1e-12)
    return Harness(f"evaluation[{kind}]", fn, repl=lambda: [], conc=4,
                   assumptions=["fluid property library by its contract "
                                "(state of two inputs, outputs functions of "
                                "the state, its documented units)"])


def saturation(kind):
    """boiling point and vapour pressure, below and above the critical
    point"""
    def fn(ctx):
        prop = Prop(ctx, kind)
        w = faked(ctx, kind, prop)
        p = ctx.real("p", 0, strict=True, typ=(1e6, 3e7))
        T = ctx.real("T", 0, strict=True, typ=(300, 800))
        got = w.T_sat(p)
        ps = w._p_crit * 0.99 if p > w._p_crit else p
        ctx.eq("T_sat", got, prop("T", P=ps, Q=0), tol=1e-12)
        got = w.p_sat(T)
        ts = w._T_crit * 0.99 if T > w._T_crit else T
        ctx.eq("p_sat", got, prop("P", T=ts, Q=0), tol=1e-12)
        ctx.true("below critical", bool(w._is_below_T_critical(T)) ==
                 bool(T < w._T_crit))
        ctx.eq("subcritical", w._make_p_subcritical(p), ps, tol=1e-12)
    return Harness(f"saturation[{kind}]", fn, repl=lambda: [], conc=8,
                   assumptions=["fluid property library by its contract "
                                "(state of two inputs, outputs functions of "
                                "the state, its documented units)"])


def phases(kind):
    """vapour content and phase"""
    def fn(ctx):
        import CoolProp as CP
        prop = Prop(ctx, kind)
        if kind.startswith("coolprop"):
            table = {CP.iphase_twophase: ("tp", "Q"),
                     CP.iphase_liquid: ("l", 0), CP.iphase_gas: ("g", 1),
                     CP.iphase_supercritical: (None, -1),
                     CP.iphase_supercritical_liquid: (None, -1),
                     CP.iphase_supercritical_gas: (None, -1),
                     CP.iphase_unknown: (None, -1)}
        else:
            table = {"Liquid": ("l", "Q"), "Vapour": ("g", "Q"),
                     "Two phases": ("tp", "Q"),
                     "Saturated vapor": ("tp", "Q"),
                     "Saturated liquid": ("tp", "Q"),
                     "Supercritical fluid": (None, "Q")}
        ph = ctx.choice("phase", list(table))
        w = faked(ctx, kind, prop, ph)
        p = ctx.real("p", 0, strict=True, typ=(1e6, 3e7))
        h = ctx.real("h", typ=TYP["h"])
        q = w.Q_ph(p, h)
        name = w.phase_ph(p, h)
        ps = w._p_crit * 0.99 if p > w._p_crit else p
        letter, Q = table[ph]
        ctx.eq("Q_ph", q, prop("Q", P=ps, h=h) if Q == "Q" else Q,
               tol=1e-12)
        if letter:
            ctx.true("phase", name == letter)
        else:
            ctx.true("phase", name not in ("l", "g", "tp"))
    return Harness(f"phases[{kind}]", fn, repl=lambda: [], conc=8,
                   assumptions=["fluid property library by its contract "
                                "(state of two inputs, outputs functions of "
                                "the state, its documented units)"])


# ----------------------------------------------------------- real back ends
def props(out, fluid, **st):
    from CoolProp.CoolProp import PropsSI
    n = {"h": "H", "s": "S", "mu": "V", "d": "D"}
    a = []
    for k, v in st.items():
        a += [n.get(k, k), v]
    return PropsSI(n.get(out, out), *a, fluid)


CP_OF = {"coolprop": "Water", "coolprop if97": "IF97::Water",
         "coolprop CO2": "CO2", "iapws97": "Water", "iapws95": "Water",
         "pyromat mp": "Water", "pyromat ig": None}


def real(kind):
    """the library itself, against CoolProp's high level interface"""
    def fn(ctx):
        w = make(kind)
        ref = CP_OF[kind]
        tol = {"coolprop": 1e-9, "coolprop CO2": 1e-9,
               "coolprop if97": 1e-6}.get(kind, 3e-3)
        T = ctx.real("T", typ=(320, 420))
        p = ctx.real("p", typ=(2e5, 2e6))
        Q = ctx.real("Q", typ=(0.1, 0.9))
        Ts = ctx.real("Ts", typ=(290, 300) if kind == "coolprop CO2"
                      else (320, 500))
        if kind == "pyromat ig":
            h = w.h_pT(p, T)
            ctx.eq("T_ph", w.T_ph(p, h), T, tol=1e-6)
            ctx.eq("d", w.d_pT(p, T), p * 0.0280134 / 8.314462 / T,
                   tol=1e-4)
            ctx.eq("cp", w.h_pT(p, T + 1) - h, 1041, tol=1e-2)
            ctx.eq("molar mass", w._molar_mass, 0.0280134, tol=1e-4)
            return
        h, s = props("h", ref, P=p, T=T), props("s", ref, P=p, T=T)
        val = {"P": p, "T": T, "h": h, "s": s, "Q": Q}
        for m, (out, names) in METHODS.items():
            if m in LACKS.get(kind, ()):
                continue
            st = dict(val)
            if "Q" in names:
                st["T"] = Ts
                st["P"] = props("P", ref, T=Ts, Q=0)
            st = {k: st[k] for k in names}
            want = props(out, ref, **st)
            got = getattr(w, m)(*st.values())
            ctx.eq(m, got, want, tol=max(tol, 1e-3) if out == "mu"
                   else tol, scale={
                "h": 1e5, "s": 1e3}.get(out, 0) if tol > 1e-5 else 0)
        from CoolProp.CoolProp import PropsSI
        base = ref.split("::")[-1]
        ctx.eq("molar mass", w._molar_mass, PropsSI("M", base), tol=1e-5)
        if kind.startswith("pyromat"):
            ctx.eq("T_boiling", w.T_boiling(p), props("T", ref, P=p, Q=1),
                   tol=1e-4)
            ctx.eq("p_boiling", w.p_boiling(Ts), props("P", ref, T=Ts, Q=1),
                   tol=1e-3)
            return
        ctx.eq("p_crit", w._p_crit, PropsSI("Pcrit", base), tol=1e-3)
        ctx.eq("T_crit", w._T_crit, PropsSI("Tcrit", base), tol=1e-4)
        ctx.true("p_min", 0 < w._p_min < 1e6 and w._p_max >= 1e7)
        ctx.true("T limits", w._T_min < 300 < w._T_max)
        ctx.true("aliases", w.fluid in w._aliases)
        Pb = props("P", ref, T=Ts, Q=0)
        ctx.eq("T_sat", w.T_sat(Pb), Ts, tol=1e-3 if "iapws" in kind
               else 1e-5)
        ctx.eq("p_sat", w.p_sat(Ts), Pb, tol=1e-3)
        hl, hv = props("h", ref, P=Pb, Q=0), props("h", ref, P=Pb, Q=1)
        if kind != "iapws95":
            for f, q, letter in ((Q, Q, "tp"), (-0.01, 0, "l"),
                                 (1.01, 1, "g")):
                if f == Q or kind != "coolprop CO2":
                    x = hl + f * (hv - hl)
                    ctx.eq("Q_ph", w.Q_ph(Pb, x), q, tol=1e-3, scale=1)
                    if kind != "coolprop if97":
                        ctx.true("phase", w.phase_ph(Pb, x) == letter)
        # supercritical arguments are taken back below the critical point
        ctx.eq("T_sat supercritical", w.T_sat(w._p_crit * 2),
               w.T_sat(w._p_crit * 0.99), tol=1e-9)
        ctx.eq("p_sat supercritical", w.p_sat(w._T_crit * 2),
               w.p_sat(w._T_crit * 0.99), tol=1e-9)
    return Harness(f"library[{kind}]", fn, sym=False, conc=6,
                   bounded="random states of one fluid", time_s=120)


def creation():
    """which library a fluid is evaluated with"""
    def fn(ctx):
        import tespy.tools.fluid_properties.wrappers as W
        from tespy.components import Sink, Source
        from tespy.connections import Connection

        def refused(f, *kinds):
            try:
                f()
            except kinds:
                return True
            return False
        w = W.CoolPropWrapper("water")
        ctx.true("default", w.back_end == "HEOS" and w.fluid == "water")
        ctx.true("if97", W.CoolPropWrapper("water", "IF97").back_end ==
                 "IF97")
        w = W.CoolPropWrapper("AEG[0.3]", "INCOMP")
        ctx.true("solution", w.fluid == "AEG" and float(
            w._fractions) == 0.3)
        from CoolProp.CoolProp import PropsSI
        ctx.eq("solution d", w.d_pT(1e5, 300), PropsSI(
            "D", "P", 1e5, "T", 300, "INCOMP::AEG-30%"), tol=1e-6)
        w = W.CoolPropWrapper("MEG[0.2]", "INCOMP")
        ctx.eq("solution h", w.h_pT(2e5, 320) - w.h_pT(2e5, 310), PropsSI(
            "H", "P", 2e5, "T", 320, "INCOMP::MEG-20%") - PropsSI(
            "H", "P", 2e5, "T", 310, "INCOMP::MEG-20%"), tol=1e-6)
        ctx.true("pure incompressible", W.CoolPropWrapper(
            "DowQ", "INCOMP")._fractions is None)
        ctx.true("iapws default", W.IAPWSWrapper("H2O").back_end == "IF97")
        ctx.true("iapws other fluid", refused(
            lambda: W.IAPWSWrapper("N2"), ValueError))
        ctx.true("iapws other formulation", refused(
            lambda: W.IAPWSWrapper("H2O", "IF67"), NotImplementedError))
        ctx.true("no such fluid", refused(
            lambda: W.CoolPropWrapper("nothing"), Exception))
        b = W.FluidPropertyWrapper("x")
        for m in list(METHODS) + ["T_sat", "p_sat", "Q_ph", "phase_ph"]:
            if m in ("h_pQ", "h_ps"):
                continue
            n = 1 if m in ("T_sat", "p_sat") else 2
            ctx.true(f"not implemented[{m}]", refused(
                lambda: getattr(b, m)(*[1] * n), NotImplementedError))
        g = W.PyromatWrapper("N2", "ig")
        for m in ("s_pT", "h_QT", "s_QT", "Q_ph", "d_QT"):
            ctx.true(f"ideal gas[{m}]", refused(
                lambda: getattr(g, m)(1e5, 300), NotImplementedError))
        for m in ("T_boiling", "p_boiling"):
            ctx.true(f"ideal gas[{m}]", refused(
                lambda: getattr(g, m)(300), NotImplementedError))

        def conn(**k):
            c = Connection(Source("a"), "out1", Sink("b"), "in1")
            c.set_attr(**k)
            c._create_fluid_wrapper()
            return c
        c = conn(fluid={"H2O": 0.4, "IF97::water": 0.1, "N2": 0.5},
                 fluid_engines={"H2O": W.IAPWSWrapper})
        made = set(c.fluid.wrapper) == {"H2O", "water", "N2"}
        ctx.true("made", made)
        if not made:
            return
        ctx.true("engine", type(c.fluid.wrapper["H2O"]) is W.IAPWSWrapper
                 and type(c.fluid.wrapper["N2"]) is W.CoolPropWrapper)
        ctx.true("back end", c.fluid.wrapper["water"].back_end == "IF97" and
                 c.fluid.wrapper["N2"].back_end == "HEOS")
        ctx.true("own fluid", all(v.fluid == k for k, v in
                                  c.fluid.wrapper.items()))
        old = dict(c.fluid.wrapper)
        c._create_fluid_wrapper()
        ctx.true("kept", all(c.fluid.wrapper[k] is v for k, v in
                             old.items()))
        d = conn(fluid={"H2O": 1})
        ctx.true("apart", "H2O" in d.fluid.wrapper and d.fluid.wrapper["H2O"] is not old["H2O"] and
                 type(d.fluid.wrapper["H2O"]) is W.CoolPropWrapper)
        ctx.true("registry", {"CoolPropWrapper", "IAPWSWrapper",
                              "PyromatWrapper"} <=
                 set(W.wrapper_registry.items))
    return Harness("creation", fn, sym=False, conc=1,
                   bounded="the fluids and libraries listed")


def history(kind):
    """interleaved evaluations of several wrappers do not disturb another"""
    def fn(ctx):
        a, b = make(kind), make(kind)
        T = [ctx.real(f"T{i}", typ=(310, 350)) for i in range(2)]
        p = [ctx.real(f"p{i}", typ=(2e5, 1e6)) for i in range(2)]
        ms = ["h_pT", "d_pT"] + (["s_pT"] if "ig" not in kind else [])
        one = {(m, i): getattr(make(kind), m)(p[i], T[i])
               for m in ms for i in (0, 1)}
        for order in itertools.permutations(range(len(ms) * 2), 3):
            for n, j in enumerate(order):
                m, i = ms[j % len(ms)], j // len(ms)
                ctx.eq(f"{m}", getattr((a, b)[n % 2], m)(p[i], T[i]),
                       one[m, i], tol=1e-9)
    return Harness(f"history[{kind}]", fn, sym=False, conc=1,
                   bounded="sequences of three evaluations")


def reselected():
    """library and back end selected after a calculation are those used by
    the next one, on every connection of the branch"""
    def fn(ctx):
        import numpy as np

        from contracts import nets
        from tespy.tools.fluid_properties.wrappers import CoolPropWrapper
        from tespy.tools.fluid_properties.wrappers import IAPWSWrapper

        class Engine(IAPWSWrapper):
            def h_pT(self, p, T):
                return super().h_pT(p, T) + 5e3

            def T_ph(self, p, h):
                return super().T_ph(p, h - 5e3)

        np.random.seed(2)
        coolprop = {"fluid_engines": {"water": CoolPropWrapper}}
        first = nets.build("linear")
        nets.solve(first.nw)
        for i, (spec, kind, back_end) in enumerate((
                ({"fluid_engines": {"water": IAPWSWrapper}}, IAPWSWrapper,
                 "IF97"),
                ({"fluid_engines": {"water": Engine}}, Engine, "IF97"),
                (coolprop, CoolPropWrapper, "HEOS"),
                ({"fluid": {"IF97::water": 1}}, CoolPropWrapper, "IF97"),
                ({"fluid": {"water": 1}}, CoolPropWrapper, "HEOS"),
                ({"fluid_engines": {"water": Engine},
                  "fluid": {"IF95::water": 1}}, Engine, "IF95"))):
            fresh = nets.build("linear")
            for n in (fresh, first):
                n.conn["1"].set_attr(**spec)
                nets.solve(n.nw)
                for lb, c in n.conn.items():
                    w = c.fluid.wrapper["water"]
                    ctx.true(f"library[{i}:{lb}]", type(w) is kind)
                    ctx.true(f"back end[{i}:{lb}]", w.back_end == back_end)
            for lb, c in first.conn.items():
                for k, sc in (("h", 1e4), ("T", 1e2), ("s", 1e2)):
                    ctx.eq(f"fresh[{i}:{lb}.{k}]", c.get_attr(k).val_SI,
                           fresh.conn[lb].get_attr(k).val_SI, tol=1e-6,
                           scale=sc)
    return Harness("reselected", fn, sym=False, conc=1,
                   bounded="one network, six selections in a row")


def water_mixture():
    """humid air with water evaluated by the IAPWS library is humid air"""
    def fn(ctx):
        import tespy.tools.fluid_properties.wrappers as W
        from tespy.tools.fluid_properties import functions as F
        x = ctx.real("x", typ=(0.005, 0.02))
        T = ctx.real("T", typ=(330, 360))
        p = ctx.real("p", typ=(1e5, 2e5))
        out = []
        for water in (W.CoolPropWrapper("H2O"), W.IAPWSWrapper("H2O")):
            fd = {"H2O": {"wrapper": water, "mass_fraction": x},
                  "N2": {"wrapper": W.CoolPropWrapper("N2"),
                         "mass_fraction": 1 - x}}
            out.append((F.v_mix_pT(p, T, fd, "ideal"),
                        F.v_mix_pT(p, T, fd, "ideal-cond"),
                        F.s_mix_pT(p, T, fd, "ideal") -
                        F.s_mix_pT(p, T - 5, fd, "ideal"),
                        F.h_mix_pT(p, T, fd, "ideal-cond") -
                        F.h_mix_pT(p, T - 5, fd, "ideal-cond")))
        for k, a, b in zip(("v", "v cond", "s", "h"), *out):
            ctx.eq(k, b, a, tol=1e-2)
    return Harness("mixture with IAPWS water", fn, sym=False, conc=4,
                   bounded="random humid states")


def harnesses(tier):
    out = [evaluation(k) for k in FLUID]
    out += [saturation(k) for k in FLUID if not k.startswith("pyromat")]
    out += [phases(k) for k in FLUID if not k.startswith("pyromat")]
    out += [real(k) for k in FLUID]
    out += [history(k) for k in FLUID]
    out += [creation(), water_mixture(), reselected()]
    return out
