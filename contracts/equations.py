"""Sidecar contracts of the component equations.

Each entry names a component class, how its connections share mass flow and
fluid (as the network does after its topology reduction), which parameter is
specified, and -- as postcondition of the residual function -- the documented
equation over the connection state.  The same table drives
  C01  Jacobian entries = partial derivatives of the residual,
  C02  residual = documented equation,
  C03  parameter reported after the calculation satisfies that equation.
"""
from __future__ import annotations

import math

from vc.bench import Bench


def m(c):
    return c.m.val_SI


def p(c):
    return c.p.val_SI


def h(c):
    return c.h.val_SI


def W(c):
    return next(iter(c.fluid.wrapper.values()))


def T(c):
    if len(c.fluid_data) > 1:
        import tespy.tools.fluid_properties.functions as F
        return F.T_mix_ph(p(c), h(c), c.fluid_data, c.mixing_rule, T0=350.0)
    return W(c).T_ph(p(c), h(c))


def v(c):
    return 1 / W(c).d_ph(p(c), h(c))


def s(c):
    return W(c).s_ph(p(c), h(c))


def h_is(i, o):
    return W(i).h_ps(p(o), W(i).s_ph(p(i), h(i)))


def eta(c):
    return W(c).viscosity_ph(p(c), h(c))


def Tsat(c):
    return W(c).T_sat(p(c))


def hsat(c, q):
    return W(c).h_pQ(p(c), q)


def log(x):
    return x.log() if hasattr(x, "t") else math.log(x)


def lmtd(a, b):
    return (a - b) / log(a / b)


class Eq:
    def __init__(self, cls, name, pars=None, chars=(), spec=None, mand=None,
                 share=None, design=None, assume=None, setup=None, kw=None,
                 var=(), bench=None, result=None, spec_mand=True,
                 no_c01=False, no_c02=False, same_branch=False, tol=5e-4,
                 fixed=None, complete_x=True, res_assume=None,
                 no_result=False, typ=None, conc=4, result_tol=1e-6,
                 free_x=None):
        self.cls, self.name = cls, name
        self.pars = pars or {}
        self.chars, self.spec, self.mand = chars, spec, mand
        self.share = share
        self.design = design
        self.assume = assume
        self.extra = setup
        self.kw = kw or {}
        self.var = var
        self.bench = bench or {}
        self.no_c01, self.no_c02 = no_c01, no_c02
        self.same_branch = same_branch
        self.tol = tol
        self.complete_x = complete_x
        self.result = result
        self.res_assume = res_assume
        self.no_result = no_result
        self.free_x = free_x
        self.conc = conc
        self.result_tol = result_tol

    @property
    def label(self):
        return f"{self.cls}.{self.name}"

    def make(self, ctx, **over):
        def mk(**kw2):
            kw = dict(share=self.share, kw=self.kw,
                      same_branch=self.same_branch)
            kw.update(self.bench)
            kw.update(over)
            kw.update(kw2)
            b = Bench(ctx, self.cls, **kw)
            for k, rng in self.pars.items():
                lo = 0 if rng[0] >= 0 else None
                b.par(k, typ=rng, lo=lo, var=k in self.var)
            for k in self.chars:
                b.chars(k)
            if self.design is not None:
                b.design_values(self.design)
            if self.extra:
                self.extra(b)
            return b
        return mk


P1 = {0: 0}
P2 = {0: 0, 1: 1}
TURB = {"i0.p": (1e6, 2e6), "o0.p": (1e5, 5e5), "i0.h": (6e5, 1.2e6),
        "o0.h": (2e5, 5e5)}
COMP = {"o0.p": (1e6, 2e6), "i0.p": (1e5, 5e5), "o0.h": (6e5, 1.2e6),
        "i0.h": (2e5, 5e5)}
HX = {"i0.h": (9e5, 1.1e6), "o0.h": (6e5, 7.5e5), "i1.h": (2e5, 3e5),
      "o1.h": (4e5, 5e5), "i0.p": (8e5, 1e6), "o0.p": (6e5, 7.9e5),
      "i1.p": (8e5, 1e6), "o1.p": (6e5, 7.9e5)}
PIPE = {"i0.p": (8e5, 1e6), "o0.p": (6e5, 7.9e5)}
EQS = []


def E(*a, **k):
    EQS.append(Eq(*a, **k))


# ------------------------------------------------------------- turbomachinery
def power(b):
    i, o = b.inl[0], b.outl[0]
    return [m(i) * (h(o) - h(i)) - b.comp.P.val]


def pr_spec(key="pr", i=0, o=0):
    def f(b):
        return [p(b.inl[i]) * b.comp.get_attr(key).val - p(b.outl[o])]
    return f


def zeta_spec(key="zeta", i=0, o=0):
    def f(b):
        ci, co = b.inl[i], b.outl[o]
        if abs(m(ci)) < 0.0001:
            return [p(ci) - p(co)]
        return [b.comp.get_attr(key).val - (p(ci) - p(co)) * math.pi ** 2 / (
            8 * abs(m(ci)) * m(ci) * (v(ci) + v(co)) / 2)]
    return f


for cls in ("Turbomachine", "Compressor", "Pump", "Turbine", "SteamTurbine"):
    E(cls, "P", {"P": (1e5, 1e6)}, spec=power, share=P1)
    E(cls, "P_var", {"P": (1e5, 1e6)}, spec=power, share=P1, var=("P",),
      no_result=True)
    E(cls, "pr", {"pr": (0.2, 3)}, spec=pr_spec(), share=P1)
    E(cls, "pr_var", {"pr": (0.2, 3)}, spec=pr_spec(), share=P1,
      var=("pr",), no_result=True)


def eta_comp(b):
    i, o = b.inl[0], b.outl[0]
    return [(h(o) - h(i)) * b.comp.eta_s.val - (h_is(i, o) - h(i))]


def eta_turb(b):
    i, o = b.inl[0], b.outl[0]
    return [(h(o) - h(i)) - (h_is(i, o) - h(i)) * b.comp.eta_s.val]


def expr_m(b, i=0):
    return m(b.inl[i]) / b.inl[i].m.design


def eta_comp_char(b, x=None):
    i, o = b.inl[0], b.outl[0]
    x = expr_m(b) if x is None else x
    return [(h(o) - h(i)) * b.comp.eta_s.design *
            b.comp.eta_s_char.char_func.evaluate(x) - (h_is(i, o) - h(i))]


def eta_turb_char(b, x=None):
    i, o = b.inl[0], b.outl[0]
    x = expr_m(b) if x is None else x
    return [(h(o) - h(i)) - b.comp.eta_s.design *
            b.comp.eta_s_char.char_func.evaluate(x) * (h_is(i, o) - h(i))]


def flowing(k):
    def f(b):
        b.ctx.assume(abs(m(b.inl[k])) >= 1e-4)
        for c in b.inl:
            if c is not b.inl[k]:
                b.ctx.assume(m(c) >= 1e-4)
    return f


def forward(b):
    for c in b.inl:
        b.ctx.assume(m(c) >= 1e-4)


def nonzero_flow(b):
    """characteristics are only evaluated for a non-zero mass flow"""
    b.ctx.assume(m(b.inl[0]) != 0)


def expr(b, param, rel=True):
    i, o = b.inl[0], b.outl[0]
    if param == "m":
        return m(i) / (i.m.design if rel else 1)
    if param == "m_out":
        return m(o) / (o.m.design if rel else 1)
    if param == "v":
        return m(i) * v(i) / (i.v.design if rel else 1)
    if param == "pr":
        if rel:
            return p(o) * i.p.design / (p(i) * o.p.design)
        return p(o) / p(i)


def set_param(key, par, typ="rel"):
    def f(b):
        d = b.comp.get_attr(key)
        d.param = par
        d.char_params = {"type": typ, "inconn": 0, "outconn": 0}
    return f


for cls in ("Compressor", "Pump"):
    E(cls, "eta_s", {"eta_s": (0.5, 0.9)}, spec=eta_comp, share=P1,
      bench={"typ": COMP})
    for par in ("m", "v", "pr", "m_out"):
        E(cls, f"eta_s_char[{par}]", chars=("eta_s_char",),
          design={"eta_s": (0.5, 0.9)}, share=P1, bench={"typ": COMP},
          setup=set_param("eta_s_char", par), assume=nonzero_flow,
          spec=lambda b, par=par: eta_comp_char(b, expr(b, par)))
for cls in ("Turbine", "SteamTurbine"):
    E(cls, "eta_s", {"eta_s": (0.5, 0.9)}, spec=eta_turb, share=P1,
      bench={"typ": TURB})
    for par in ("m", "v", "pr", "m_out"):
        E(cls, f"eta_s_char[{par}]", chars=("eta_s_char",),
          design={"eta_s": (0.5, 0.9)}, share=P1, bench={"typ": TURB},
          setup=set_param("eta_s_char", par), assume=nonzero_flow,
          spec=lambda b, par=par: eta_turb_char(b, expr(b, par)))


# ------------------------------------------------ wet expansion (steam turbine)
def wet_turbine(case):
    """dry efficiency corrected by the mean moisture (Baumann), applied from
    the point where the expansion enters the two-phase region"""
    def f(b):
        i, o, c = b.inl[0], b.outl[0], b.comp
        w = W(i)
        if case == "gg":
            return [eta_is(i, o) - c.eta_s_dry.val]
        x_o = w.Q_ph(p(o), h(o))
        if case == "tp":
            y = (1 - w.Q_ph(p(i), h(i)) + 1 - x_o) / 2
            return [eta_is(i, o) - c.eta_s_dry.val * (1 - c.alpha.val * y)]
        ps = entry_pressure(b)
        hs = w.h_pQ(ps, 1)
        y = (1 - x_o) / 2
        return [h(o) - hs + c.eta_s_dry.val * (1 - c.alpha.val * y) *
                (hs - w.h_ps(p(o), w.s_ph(ps, hs)))]
    return f


def eta_is(i, o):
    return (h(o) - h(i)) / (h_is(i, o) - h(i))


def entry_pressure(b):
    """pressure between in- and outlet where the dry expansion line meets the
    saturated vapour line"""
    i, o, c = b.inl[0], b.outl[0], b.comp
    w = W(i)

    def f(ps):
        return h(i) - c.eta_s_dry.val * (
            h(i) - w.h_ps(ps, w.s_ph(p(i), h(i)))) - w.h_pQ(ps, 1)
    if b.ctx.mode == "sym":
        calls = b.ctx.data.get("brentq", [])
        b.ctx.true("one-search-for-the-entry", len(calls) > 0)
        r = calls[-1] if calls else 0.5
        ps = p(i) - r * (p(i) - p(o))
        b.ctx.eq("entry-is-on-the-saturation-line", f(ps), 0.0)
        return ps
    lo, hi = p(o), p(i)
    for _ in range(200):
        mid = (lo + hi) / 2
        if (f(mid) > 0) == (f(lo) > 0):
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def brentq_contract(f, a, b, *args, **kw):
    """scipy.optimize.brentq: a root of f between a and b"""
    from vc.engine import cur
    ctx = cur()
    probe = ctx.real("#brentq.probe", 0, 1, strict=True)
    # the root depends on what f depends on: f as a function of its argument
    # is identified by its value at a fixed generic argument
    r = ctx.fn("brentq.root", f(probe))
    ctx.assume(r >= min(a, b))
    ctx.assume(r <= max(a, b))
    ctx.assume(f(r) == 0)
    ctx.data.setdefault("brentq", []).append(r)
    return r


def wet_phases(case):
    def f(b):
        i, o = b.inl[0], b.outl[0]
        w = W(i)
        for c in b.conns:
            W(c).two_phase = True
            b.ctx.assume(hsat(c, 0) < hsat(c, 1))
        b.ctx.assume(p(i) > p(o))
        if case == "tp":
            b.ctx.assume(h(i) >= hsat(i, 0))
            b.ctx.assume(h(i) <= hsat(i, 1))
        else:
            b.ctx.assume(h(i) > hsat(i, 1))
        if case == "gg":
            b.ctx.assume(h(o) > hsat(o, 1))
        else:
            b.ctx.assume(h(o) >= hsat(o, 0))
            b.ctx.assume(h(o) <= hsat(o, 1))
    return f


WET = {"tp": {"i0.p": (1.8e6, 2e6), "i0.h": (2.0e6, 2.2e6),
              "o0.p": (1e5, 2e5), "o0.h": (1.5e6, 1.9e6)},
       "gg": {"i0.p": (1.8e6, 2e6), "i0.h": (2.7e6, 2.8e6),
              "o0.p": (1e5, 2e5), "o0.h": (2.45e6, 2.6e6)},
       "gtp": {"i0.p": (1.8e6, 2e6), "i0.h": (2.32e6, 2.34e6),
               "o0.p": (1e5, 2e5), "o0.h": (2.1e6, 2.25e6)}}


def two_phase_setup(b):
    for c in b.conns:
        W(c).two_phase = True


for case, typ in WET.items():
    E("SteamTurbine", f"eta_s_dry_group[{case}]",
      {"eta_s_dry": (0.8, 0.9), "alpha": (0.5, 1.5)}, share=P1,
      spec=wet_turbine(case), assume=wet_phases(case), no_result=True,
      bench={"typ": typ}, setup=two_phase_setup)


# ------------------------------------------------- moving boundary exchanger
def mb_sections(b):
    """heat flows (from the cold end) at which a stream begins or ends to
    evaporate or condense, and the temperatures there"""
    out = []
    tot = m(b.inl[0]) * (h(b.inl[0]) - h(b.outl[0]))
    for lo, hi in ((b.outl[0], b.inl[0]), (b.inl[1], b.outl[1])):
        for q in (0, 1):
            hs = W(lo).h_pQ(p(lo), q)
            if h(lo) < hs and hs < h(hi):
                out.append((hs - h(lo)) * m(lo))
    for k in range(1, len(out)):
        j = k
        while j and out[j] < out[j - 1]:
            out[j], out[j - 1] = out[j - 1], out[j]
            j -= 1
    qs = [0.0] + out + [tot]
    hot, cold = b.outl[0], b.inl[1]
    td = [W(hot).T_ph(p(hot), h(hot) + q / m(hot)) -
          W(cold).T_ph(p(cold), h(cold) + q / m(cold)) for q in qs]
    return qs, td


def mb_ua(b):
    qs, td = mb_sections(b)
    return [b.comp.UA.val - sum(
        (qs[k + 1] - qs[k]) / lmtd(td[k + 1], td[k])
        for k in range(len(qs) - 1))]


def mb_pinch(b):
    r = None
    for t in mb_sections(b)[1]:
        r = t if r is None or t < r else r
    return [b.comp.td_pinch.val - r]


PH = {"l": lambda c, hi: (None, hsat(c, 0)),
      "t": lambda c, hi: (hsat(c, 0), hsat(c, 1)),
      "g": lambda c, hi: (hsat(c, 1), None)}


def mb_assume(hot, cold):
    """constant pressure, closed energy balance, states in the given phases,
    positive temperature differences"""
    def f(b):
        ctx = b.ctx
        for side, ph in ((0, hot), (1, cold)):
            i, o = b.inl[side], b.outl[side]
            ctx.assume(m(i) > 0)
            lo, hi = (o, i) if side == 0 else (i, o)
            ctx.assume(h(lo) + 2 < h(hi))
            for c, x in ((lo, ph[0]), (hi, ph[1])):
                ctx.assume(hsat(c, 0) + 2 < hsat(c, 1))
                a, z = PH[x](c, None)
                if a is not None:
                    ctx.assume(h(c) > a + 1)
                if z is not None:
                    ctx.assume(h(c) < z - 1)
        qs, td = mb_sections(b)
        for k in range(len(qs)):
            ctx.assume(td[k] > 0)
            for j in range(k):
                ctx.assume(qs[k] - qs[j] > 0)
            if k:
                ctx.assume(round(td[k], 6) != round(td[k - 1], 6))
    return f



def cone(b):
    i, o = b.inl[0], b.outl[0]
    return [-m(i) + i.m.design * p(i) / i.p.design *
            ((i.p.design * i.vol.design) / (p(i) * v(i))) ** 0.5 *
            abs((1 - (p(o) / p(i)) ** 2) / (1 - b.comp.pr.design ** 2)) **
            0.5]


for cls in ("Turbine", "SteamTurbine"):
    E(cls, "cone", chars=(), spec=cone, share=P1, bench={"typ": TURB},
      design={"pr": (0.1, 0.5)}, setup=lambda b: setattr(
          b.comp.cone, "is_set", True))


def flow_char(par, typ):
    def f(b):
        i, o = b.inl[0], b.outl[0]
        return [p(o) - p(i) - b.comp.flow_char.char_func.evaluate(
            expr(b, par, typ == "rel"))]
    return f


for par, typ in (("v", "abs"), ("m", "rel"), ("v", "rel"), ("m", "abs")):
    E("Pump", f"flow_char[{par},{typ}]", chars=("flow_char",), share=P1,
      design={}, setup=set_param("flow_char", par, typ),
      spec=flow_char(par, typ), bench={"typ": COMP})


# --------------------------------------------------------------------- valve
def valve_mand(b):
    return [h(b.inl[0]) - h(b.outl[0])]


E("Valve", "mandatory", mand=valve_mand, spec=lambda b: [], share=P1)
E("Valve", "pr", {"pr": (0.2, 1)}, mand=valve_mand, spec=pr_spec(), share=P1)
E("Valve", "pr_var", {"pr": (0.2, 1)}, mand=valve_mand, spec=pr_spec(),
  share=P1, var=("pr",), no_result=True)
E("Valve", "zeta", {"zeta": (1e3, 1e5)}, mand=valve_mand, spec=zeta_spec(),
  share=P1, res_assume=flowing(0))
E("Valve", "zeta_var", {"zeta": (1e3, 1e5)}, mand=valve_mand,
  spec=zeta_spec(), share=P1, var=("zeta",), no_result=True)
for par in ("m", "v", "pr", "m_out"):
    for typ in ("rel", "abs"):
        E("Valve", f"dp_char[{par},{typ}]", chars=("dp_char",), share=P1,
          mand=valve_mand, design={}, setup=set_param("dp_char", par, typ),
          assume=nonzero_flow,
          spec=lambda b, par=par, typ=typ: [
              p(b.inl[0]) - p(b.outl[0]) -
              b.comp.dp_char.char_func.evaluate(expr(b, par, typ == "rel"))])


# ------------------------------------------------ simple heat exchanger, pipe
def heat(b):
    i, o = b.inl[0], b.outl[0]
    return [m(i) * (h(o) - h(i)) - b.comp.Q.val]


def dff(b, re):
    import tespy.components.heat_exchangers.simple as S
    import tespy.tools.fluid_properties.helpers as H
    return H.darcy_friction_factor(re, b.comp.ks.val, b.comp.D.val)


def darcy(b):
    i, o = b.inl[0], b.outl[0]
    if abs(m(i)) < 0.0001:
        return [p(i) - p(o)]
    D, L = b.comp.D.val, b.comp.L.val
    re = 4 * abs(m(i)) / (math.pi * D * (eta(i) + eta(o)) / 2)
    return [p(i) - p(o) - 8 * abs(m(i)) * m(i) * (v(i) + v(o)) / 2 * L *
            dff(b, re) / (math.pi ** 2 * D ** 5)]


def hazen(b):
    i, o = b.inl[0], b.outl[0]
    if abs(m(i)) < 0.0001:
        return [p(i) - p(o)]
    sign = 1 if m(i) > 0 else -1
    D, L, k = b.comp.D.val, b.comp.L.val, b.comp.ks_HW.val
    return [(p(i) - p(o)) * sign - 10.67 * abs(m(i)) ** 1.852 * L /
            (k ** 1.852 * D ** 4.871) * 9.81 * ((v(i) + v(o)) / 2) ** 0.852]


def tdl_simple(b):
    a = T(b.inl[0]) - b.comp.Tamb.val_SI
    c = T(b.outl[0]) - b.comp.Tamb.val_SI
    if a / c < 0:
        return (a + c) / 2
    if a > c:
        return lmtd(a, c)
    if a < c:
        return lmtd(c, a)
    return c


def kA_group(b):
    i, o = b.inl[0], b.outl[0]
    return [m(i) * (h(o) - h(i)) + b.comp.kA.val * tdl_simple(b)]


def kA_char_group(par):
    def f(b):
        i, o = b.inl[0], b.outl[0]
        fk = 2 / (1 + 1 / b.comp.kA_char.char_func.evaluate(expr(b, par)))
        return [m(i) * (h(o) - h(i)) + b.comp.kA.design * fk *
                tdl_simple(b)]
    return f


def cooling(b):
    """heat flows along the temperature difference to the ambient"""
    i, o = b.inl[0], b.outl[0]
    q = m(i) * (h(o) - h(i))
    a = T(i) - b.comp.Tamb.val_SI
    c = T(o) - b.comp.Tamb.val_SI
    b.ctx.assume(a * c > 0)
    b.ctx.assume(q * a < 0)
    b.ctx.assume(abs(m(i)) >= 1e-4)


DIM = {"D": (0.05, 0.2), "L": (10, 100), "ks": (1e-5, 1e-3)}
HWD = {"D": (0.05, 0.2), "L": (10, 100), "ks_HW": (10, 150)}
for cls in ("SimpleHeatExchanger", "Pipe", "SolarCollector",
            "ParabolicTrough"):
    E(cls, "Q", {"Q": (-1e6, 1e6)}, spec=heat, share=P1)
    E(cls, "Q_var", {"Q": (-1e6, 1e6)}, spec=heat, share=P1, var=("Q",),
      no_result=True)
    E(cls, "pr", {"pr": (0.2, 1)}, spec=pr_spec(), share=P1)
    E(cls, "pr_var", {"pr": (0.2, 1)}, spec=pr_spec(), share=P1,
      var=("pr",), no_result=True)
    E(cls, "zeta", {"zeta": (1e3, 1e5)}, spec=zeta_spec(), share=P1,
      res_assume=flowing(0))
    E(cls, "zeta_var", {"zeta": (1e3, 1e5)}, spec=zeta_spec(), share=P1,
      var=("zeta",), no_result=True)
    E(cls, "darcy", dict(DIM), spec=darcy, share=P1, bench={"typ": PIPE},
      tol=5e-3, no_result=True)
    E(cls, "darcy_var", dict(DIM), spec=darcy, share=P1,
      var=("D", "L", "ks"), bench={"typ": PIPE}, tol=5e-3, no_result=True)
    E(cls, "hw", dict(HWD), spec=hazen, share=P1, bench={"typ": PIPE},
      no_result=True)
    E(cls, "hw_var", dict(HWD), spec=hazen, share=P1,
      var=("D", "L", "ks_HW"), bench={"typ": PIPE}, no_result=True)
    for nm, f, d in (("darcy", darcy, DIM), ("hw", hazen, HWD),
                     ("zeta", zeta_spec(), {"zeta": (-1e5, 1e5)})):
        E(cls, nm + "_reverse", dict(d), spec=f, share=P1,
          no_result=nm != "zeta", res_assume=flowing(0),
          tol=5e-3, bench={"typ": {"o0.p": (8e5, 1e6), "i0.p": (6e5, 7.9e5),
                                   "i0.m": (-8, -0.5)}})
TA = {"Tamb": (280, 300)}
for cls in ("SimpleHeatExchanger", "Pipe"):
    E(cls, "kA", dict(TA, kA=(1e3, 1e5)), spec=kA_group, share=P1,
      res_assume=cooling)
    E(cls, "kA_var", dict(TA, kA=(1e3, 1e5)), spec=kA_group, share=P1,
      var=("kA",), no_result=True)
    for par in ("m", "v"):
        E(cls, f"kA_char[{par}]", dict(TA), chars=("kA_char",), share=P1,
          design={"kA": (1e3, 1e5)}, spec=kA_char_group(par),
          setup=set_param("kA_char", par), no_result=True)


def collector(b):
    i, o, c = b.inl[0], b.outl[0], b.comp
    dT = (T(i) + T(o)) / 2 - c.Tamb.val_SI
    return [m(i) * (h(o) - h(i)) - c.A.val * (
        c.E.val * c.eta_opt.val - dT * c.lkf_lin.val -
        c.lkf_quad.val * dT ** 2)]


def trough(b):
    i, o, c = b.inl[0], b.outl[0], b.comp
    dT = (T(i) + T(o)) / 2 - c.Tamb.val_SI
    iam = 1 - c.iam_1.val * abs(c.aoi.val) - c.iam_2.val * c.aoi.val ** 2
    return [m(i) * (h(o) - h(i)) - c.A.val * (
        c.E.val * c.eta_opt.val * c.doc.val ** 1.5 * iam -
        dT * c.c_1.val - c.c_2.val * dT ** 2)]


SOL = dict(TA, E=(500, 1000), eta_opt=(0.5, 0.9), lkf_lin=(0.5, 2),
           lkf_quad=(0.001, 0.01), A=(10, 50))
PTR = dict(TA, E=(500, 1000), eta_opt=(0.5, 0.9), aoi=(-20, 20),
           doc=(0.5, 1), c_1=(0.5, 2), c_2=(0.001, 0.01),
           iam_1=(1e-4, 1e-3), iam_2=(1e-5, 1e-4), A=(10, 50))
E("SolarCollector", "energy_group", SOL, spec=collector, share=P1,
  no_result=True)
E("SolarCollector", "energy_group_var", SOL, spec=collector, share=P1,
  var=("A", "E", "eta_opt", "lkf_lin", "lkf_quad", "Tamb")[:5],
  no_result=True)
E("ParabolicTrough", "energy_group", PTR, spec=trough, share=P1,
  no_result=True)
E("ParabolicTrough", "energy_group_var", PTR, spec=trough, share=P1,
  var=("A", "E", "eta_opt", "doc", "c_1", "c_2", "iam_1", "iam_2", "aoi"),
  no_result=True)


# ------------------------------------------------------- heat exchanger family
def hx_mand(b):
    i, o = b.inl, b.outl
    return [m(i[0]) * (h(o[0]) - h(i[0])) + m(i[1]) * (h(o[1]) - h(i[1]))]


def dsh_mand(b):
    return hx_mand(b) + [h(b.outl[0]) - hsat(b.outl[0], 1)]


def cond_tail(b):
    return [h(b.outl[0]) - hsat(b.outl[0], 0)]


def Thot(b):
    """hot side inlet temperature of the terminal difference"""
    if type(b.comp).__name__ == "Condenser":
        return Tsat(b.inl[0])
    return T(b.inl[0])


def q_hot(b):
    return m(b.inl[0]) * (h(b.outl[0]) - h(b.inl[0]))


def td_feasible(b):
    ctx = b.ctx
    ctx.assume(Thot(b) > T(b.outl[1]))
    ctx.assume(T(b.outl[0]) > T(b.inl[1]))


def td_log(b):
    u = Thot(b) - T(b.outl[1])
    lo = T(b.outl[0]) - T(b.inl[1])
    if u == lo:
        return lo
    return lmtd(lo, u)


def hx_spec(f, cls):
    if cls == "Condenser":
        return lambda b: f(b) + cond_tail(b)
    return f


def hx_char(par1, par2):
    def f(b):
        x1 = expr_hx(b, par1, 0)
        x2 = expr_hx(b, par2, 1)
        f1 = b.comp.kA_char1.char_func.evaluate(x1)
        f2 = b.comp.kA_char2.char_func.evaluate(x2)
        return [q_hot(b) + b.comp.kA.design * 2 / (1 / f1 + 1 / f2) *
                td_log(b)]
    return f


def expr_hx(b, par, k):
    i, o = b.inl[k], b.outl[k]
    if par == "m":
        return m(i) / i.m.design
    if par == "v":
        return m(i) * v(i) / i.v.design
    if par == "m_out":
        return m(o) / o.m.design


def eff_cold_max(b):
    o2 = b.outl[1]
    return W(o2).h_pT(p(o2), T(b.inl[0])) - h(b.inl[1])


def eff_hot_max(b):
    o1 = b.outl[0]
    return W(o1).h_pT(p(o1), T(b.inl[1])) - h(b.inl[0])


def minimum(a, b):
    return a if a <= b else b


def maximum(a, b):
    return a if a >= b else b


HXCLS = ("HeatExchanger", "Condenser", "Desuperheater")
for cls in HXCLS:
    mand = dsh_mand if cls == "Desuperheater" else hx_mand
    typ = dict(HX)
    if cls == "Condenser":
        typ.update({"i0.p": (1.2e7, 1.4e7), "o0.p": (1.1e7, 1.19e7)})

    def A(name, pars=None, spec=None, cls=cls, mand=mand, typ=typ, **k):
        if name in ("zeta1", "zeta2"):
            k["res_assume"] = flowing(int(name[-1]) - 1)
        else:
            k["res_assume"] = forward
        E(cls, name, pars, spec=hx_spec(spec, cls), mand=mand, share=P2,
          bench={"typ": typ}, **k)

    A("mandatory", spec=lambda b: [])
    A("mandatory_same_branch", spec=lambda b: [], same_branch=True,
      no_result=True)
    A("Q", {"Q": (-1e6, -1e5)}, lambda b: [q_hot(b) - b.comp.Q.val])
    A("kA", {"kA": (1e3, 1e5)},
      lambda b: [q_hot(b) + b.comp.kA.val * td_log(b)], assume=td_feasible)
    A("ttd_u", {"ttd_u": (5, 50)},
      lambda b: [b.comp.ttd_u.val - Thot(b) + T(b.outl[1])])
    A("ttd_l", {"ttd_l": (5, 50)},
      lambda b: [b.comp.ttd_l.val - T(b.outl[0]) + T(b.inl[1])])

    def ttdmin(b):
        u = Thot(b) - T(b.outl[1])
        lo = T(b.outl[0]) - T(b.inl[1])
        return [b.comp.ttd_min.val - minimum(lo, u)]
    A("ttd_min", {"ttd_min": (5, 50)}, ttdmin)
    for n in (1, 2):
        A(f"pr{n}", {f"pr{n}": (0.3, 1)}, pr_spec(f"pr{n}", n - 1, n - 1))
        A(f"pr{n}_var", {f"pr{n}": (0.3, 1)},
          pr_spec(f"pr{n}", n - 1, n - 1), var=(f"pr{n}",), no_result=True)
        A(f"zeta{n}", {f"zeta{n}": (1e3, 1e5)},
          zeta_spec(f"zeta{n}", n - 1, n - 1))
        A(f"zeta{n}_var", {f"zeta{n}": (1e3, 1e5)},
          zeta_spec(f"zeta{n}", n - 1, n - 1), var=(f"zeta{n}",),
          no_result=True)
        A(f"dp{n}", {f"dp{n}": (1e3, 1e5)}, lambda b, n=n: [
            p(b.inl[n - 1]) - p(b.outl[n - 1]) -
            b.comp.get_attr(f"dp{n}").val])
    for p1, p2 in (("m", "m"), ("v", "m"), ("m", "v"), ("m_out", "m_out")):
        def su(b, p1=p1, p2=p2):
            b.comp.kA_char.is_set = True
            b.comp.kA_char1.param = p1
            b.comp.kA_char2.param = p2
        A(f"kA_char[{p1},{p2}]", None, hx_char(p1, p2), setup=su,
          chars=("kA_char1", "kA_char2"), design={"kA": (1e3, 1e5)},
          assume=td_feasible, no_result=True)
    A("eff_cold", {"eff_cold": (0.2, 0.9)}, lambda b: [
        b.comp.eff_cold.val * eff_cold_max(b) -
        (h(b.outl[1]) - h(b.inl[1]))])
    A("eff_hot", {"eff_hot": (0.2, 0.9)}, lambda b: [
        b.comp.eff_hot.val * eff_hot_max(b) - (h(b.outl[0]) - h(b.inl[0]))])
    A("eff_max", {"eff_max": (0.2, 0.9)}, lambda b: [
        b.comp.eff_max.val - maximum(
            (h(b.outl[0]) - h(b.inl[0])) / eff_hot_max(b),
            (h(b.outl[1]) - h(b.inl[1])) / eff_cold_max(b))])


# ------------------------------------------------- moving boundary exchanger
MBF = {"fluidsets": {"i0": ("hot",), "o0": ("hot",), "i1": ("cold",),
                     "o1": ("cold",)}}
MBH = {"l": (1e5, 3.5e5), "t": (6e5, 2e6), "g": (2.6e6, 3e6)}


def mb_wrapper(b):
    W(b.inl[0]).a = 1500.0      # concrete runs: the hot side is hotter


def mb_closed(b):
    """one pressure per side, closed energy balance: heat flow, enthalpy
    differences and one enthalpy per side are free"""
    mb_wrapper(b)
    Q = b.ctx.real("Q", 0, strict=True, typ=(1e5, 1e6))
    for side, lo, hi in ((0, b.outl[0], b.inl[0]), (1, b.inl[1], b.outl[1])):
        b.outl[side].p.val_SI = b.inl[side].p.val_SI
        t = b.typ
        d = b.ctx.real(f"dh{side}", 0, strict=True, typ=(
            t[hi.label + ".h"][0] - t[lo.label + ".h"][0],
            t[hi.label + ".h"][1] - t[lo.label + ".h"][1]))
        hi.h.val_SI = h(lo) + d
        lo.m.val_SI = Q / d


def mb_modular(b):
    mb_wrapper(b)
    if b.ctx.mode == "sym":
        for k in ("calc_UA", "calc_td_pinch"):
            def f(k=k):
                return b.ctx.fn(k, *[x for c in b.conns
                                     for x in (m(c), p(c), h(c))])
            if hasattr(b.comp, k):
                setattr(b.comp, k, f)


def mb_typ(hot, cold):
    r = {}
    for (lo, hi), ph in ((("o0", "i0"), hot), (("i1", "o1"), cold)):
        for c, x, k in ((lo, ph[0], 0), (hi, ph[1], 1)):
            a, z = MBH[x]
            mid = (a + z) / 2
            w = (z - a) / 10
            r[c + ".h"] = (a, mid - w) if k == 0 else (mid + w, z)
    r.update({"i0.p": (8e5, 1e6), "o0.p": (8e5, 1e6), "i1.p": (8e5, 1e6),
              "o1.p": (8e5, 1e6)})
    return r


MBK = ["ll", "lt", "lg", "tt", "tg", "gg"]
for hot in MBK:
    for cold in MBK:
        edges = sum({"lg": 2, "lt": 1, "tg": 1}.get(x, 0)
                    for x in (hot, cold))
        for nm, par, spec in (("UA", (1e2, 1e4), mb_ua),
                              ("td_pinch", (1, 50), mb_pinch)):
            if nm == "td_pinch" and edges > 1 and (hot, cold) != (
                    "lg", "ll"):
                continue
            E("MovingBoundaryHeatExchanger", f"{nm}[{hot},{cold}]",
              {nm: par}, spec=spec, mand=hx_mand, share=P2, no_c01=True,
              bench=dict(MBF, typ=mb_typ(hot, cold)), setup=mb_closed,
              assume=mb_assume(hot, cold), conc=2, no_result=True)

            # derivatives: the calculation of the sections is a function of
            # the states of the four connections (contract in C02)
            if (hot, cold) in (("ll", "ll"), ("lg", "ll"), ("lt", "ll")):
                E("MovingBoundaryHeatExchanger", f"{nm}[{hot},{cold}]",
                  {nm: par}, share=P2, no_c02=True, no_result=True,
                  bench=dict(MBF, typ=mb_typ(hot, cold)), setup=mb_modular,
                  conc=2)
                E("MovingBoundaryHeatExchanger", f"{nm}[{hot},{cold}]",
                  {nm: par}, share=P2, no_c01=True, no_c02=True,
                  bench=dict(MBF, typ=mb_typ(hot, cold)), conc=2,
                  setup=lambda b: (mb_closed(b), mb_modular(b)),
                  res_assume=forward, spec=lambda b, nm=nm: [
                      b.comp.get_attr(nm).func()])


# ----------------------------------------------------------------------- nodes
def press_all(b):
    cs = b.inl + b.outl
    return [p(cs[0]) - p(c) for c in cs[1:]]


def massbal(b):
    return [sum(m(c) for c in b.inl) - sum(m(c) for c in b.outl)]


def energybal(b):
    return [sum(m(c) * h(c) for c in b.inl) -
            sum(m(c) * h(c) for c in b.outl)]


for n in (1, 2, 3, 5):
    E("Splitter", f"mandatory[{n}]", kw={"num_out": n},
      spec=lambda b: massbal(b) + [h(b.inl[0]) - h(c) for c in b.outl] +
      press_all(b), share={}, no_result=True,
      bench={"share_fluid": {i: 0 for i in range(n)}})


# Merge without composition variables: composition and mass balance coincide
FL2 = ("H2O", "N2")


def merge_fl(b):
    o = b.outl[0]
    return [sum(m(c) * c.fluid.val[f] for c in b.inl) -
            m(o) * o.fluid.val[f] for f in o.fluid.val]


for n in (1, 2, 3, 4):
    E("Merge", f"mandatory[{n}]", kw={"num_in": n}, share={},
      spec=lambda b: merge_fl(b) + energybal(b) + press_all(b),
      no_result=True)
    E("Merge", f"mixture[{n}]", kw={"num_in": n}, share={},
      spec=lambda b: massbal(b) + merge_fl(b) + energybal(b) + press_all(b),
      bench={"fluids": FL2, "fluid_vars": True}, no_result=True)
E("Merge", "mixture3[2]", share={},
  spec=lambda b: massbal(b) + merge_fl(b) + energybal(b) + press_all(b),
  bench={"fluids": FL2 + ("O2",), "fluid_vars": True}, no_result=True)


def sep_fl(b):
    i = b.inl[0]
    return [m(i) * i.fluid.val[f] - sum(m(c) * c.fluid.val[f]
                                        for c in b.outl)
            for f in b.comp.variable_fluids]


for n in (2, 3):
    E("Separator", f"mixture[{n}]", kw={"num_out": n}, share={},
      spec=lambda b: massbal(b) + sep_fl(b) + [
          T(b.inl[0]) - T(c) for c in b.outl] + press_all(b),
      bench={"fluids": FL2, "fluid_vars": True}, complete_x=False,
      no_result=True, tol=3e-3)


def sat_out(b):
    a, c = b.outl
    return [hsat(a, 0) - h(a), hsat(c, 1) - h(c)]


E("DropletSeparator", "mandatory", share={}, no_result=True,
  spec=lambda b: massbal(b) + energybal(b) + press_all(b) + sat_out(b),
  bench={"share_fluid": {0: 0, 1: 0}})
E("Drum", "mandatory", share={}, no_result=True,
  spec=lambda b: massbal(b) + energybal(b) + press_all(b) + sat_out(b))


E("Drum", "closed_loop", share={0: 1, 1: 0}, no_result=True,
  spec=lambda b: energybal(b) + press_all(b) + sat_out(b))
E("CycleCloser", "mandatory", share={}, no_result=True,
  spec=lambda b: [p(b.inl[0]) - p(b.outl[0]), h(b.inl[0]) - h(b.outl[0])])
for n in (1, 2, 4):
    E("SubsystemInterface", f"mandatory[{n}]", kw={"num_inter": n},
      share={i: i for i in range(n)}, no_result=True,
      spec=lambda b: [p(i) - p(o) for i, o in zip(b.inl, b.outl)] +
      [h(i) - h(o) for i, o in zip(b.inl, b.outl)])


# ------------------------------------------------ several specifications at once
def combine(cls, *names):
    """all of the named specifications together: each keeps its own row"""
    es = [next(e for e in EQS if e.cls == cls and e.name == n
               and not e.no_c02) for n in names]
    pars, bench, design = {}, {}, {}
    for e in es:
        pars.update(e.pars)
        bench.update(e.bench)
        design.update(e.design or {})

    def setup(b):
        for e in es:
            if e.extra:
                e.extra(b)

    def assume(b):
        for e in es:
            if e.assume:
                e.assume(b)
    E(cls, "all[" + "+".join(names) + "]", pars,
      chars=tuple(k for e in es for k in e.chars),
      spec=lambda b: [r for e in es for r in e.spec(b)],
      mand=es[0].mand, share=es[0].share, bench=bench, setup=setup,
      design=design if any(e.design is not None for e in es) else None,
      assume=assume, var=tuple(k for e in es for k in e.var),
      tol=max(e.tol for e in es), no_result=True)


combine("Turbine", "pr", "eta_s", "cone", "P", "eta_s_char[m]")
combine("SteamTurbine", "eta_s_char[v]", "pr_var", "cone")
combine("Compressor", "eta_s", "P", "pr", "eta_s_char[v]")
combine("Pump", "flow_char[v,abs]", "eta_s_char[v]", "pr", "P")
combine("Valve", "pr", "zeta", "dp_char[v,rel]")
combine("Pipe", "Q", "pr", "zeta", "kA", "darcy")
combine("SimpleHeatExchanger", "kA_char[m]", "hw", "pr_var", "Q")
combine("SolarCollector", "energy_group_var", "zeta", "Q_var")
combine("HeatExchanger", "Q", "ttd_u", "ttd_l", "pr1", "zeta2", "dp1",
        "eff_cold")
combine("HeatExchanger", "kA_char[m,m]", "pr1_var", "zeta2_var", "ttd_min",
        "eff_max")
combine("Desuperheater", "Q", "pr1", "pr2", "kA")
