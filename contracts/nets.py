"""Small networks for the bounded whole-network contracts (real back ends)."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vc-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def solve(nw, mode="design", **k):
    with quiet():
        nw.solve(mode, print_results=False, **k)
    return nw


class Net:
    def __init__(self, **k):
        import tespy.components as C
        import tespy.connections as N
        from tespy.networks import Network
        self.C, self.N = C, N
        k.setdefault("p_unit", "bar")
        k.setdefault("T_unit", "C")
        k.setdefault("h_unit", "kJ / kg")
        self.nw = Network(iterinfo=False, **k)
        self.comp, self.conn = {}, {}

    def add(self, kind, label, **k):
        c = self.comp[label] = getattr(self.C, kind)(label, **k)
        return c

    def link(self, label, a, ao, b, bi, **k):
        c = self.N.Connection(self.comp[a], ao, self.comp[b], bi,
                              label=label, **k)
        self.conn[label] = c
        self.nw.add_conns(c)
        return c

    def chain(self, *names, start=1, prefix=""):
        for k, (a, b) in enumerate(zip(names, names[1:])):
            self.link(f"{prefix}{k + start}", a, "out1", b, "in1")
        return self


def linear(**k):
    """pump, pipe, heater, valve in a row"""
    n = Net(**k)
    n.add("Source", "source")
    n.add("Pump", "pump", eta_s=0.8)
    n.add("Pipe", "pipe", pr=0.95, Q=-2e4)
    n.add("SimpleHeatExchanger", "heater", pr=0.98)
    n.add("Valve", "valve")
    n.add("Sink", "sink")
    n.chain("source", "pump", "pipe", "heater", "valve", "sink")
    c = n.conn
    c["1"].set_attr(fluid={"water": 1}, m=3, p=1, T=30)
    c["2"].set_attr(p=12)
    c["4"].set_attr(T=120)
    c["5"].set_attr(p=5)
    return n


def rankine(**k):
    """closed steam cycle"""
    n = Net(**k)
    n.add("CycleCloser", "cc")
    n.add("Turbine", "turbine", eta_s=0.88)
    n.add("SimpleHeatExchanger", "condenser", pr=1)
    n.add("Pump", "pump", eta_s=0.75)
    n.add("SimpleHeatExchanger", "boiler", pr=0.9)
    n.chain("cc", "turbine", "condenser", "pump", "boiler", "cc")
    c = n.conn
    c["1"].set_attr(fluid={"water": 1}, m=10, p=100, T=550)
    c["2"].set_attr(p=0.1)
    c["3"].set_attr(x=0)
    bus = n.N.Bus("power")
    bus.add_comps({"comp": n.comp["turbine"], "char": 0.97,
                   "base": "component"},
                  {"comp": n.comp["pump"], "char": 0.95, "base": "bus"})
    n.nw.add_busses(bus)
    n.bus = bus
    return n


def heat_exchanger(**k):
    """two streams"""
    n = Net(**k)
    for x in ("hot", "cold"):
        n.add("Source", f"{x} source")
        n.add("Sink", f"{x} sink")
    n.add("HeatExchanger", "hx", pr1=0.98, pr2=0.97, ttd_u=15,
          design=["pr1", "pr2", "ttd_u"],
          offdesign=["zeta1", "zeta2", "kA_char"])
    n.link("h1", "hot source", "out1", "hx", "in1",
           fluid={"N2": 0.76, "O2": 0.24}, m=10, T=300, p=1.2)
    n.link("h2", "hx", "out1", "hot sink", "in1", T=150)
    n.link("c1", "cold source", "out1", "hx", "in2", fluid={"water": 1},
           T=40, p=100, m0=2)
    n.link("c2", "hx", "out2", "cold sink", "in1")
    return n


def split_merge(**k):
    """splitter, two lines, merge; a reference and a user equation"""
    n = Net(**k)
    n.add("Source", "source")
    n.add("Splitter", "split", num_out=2)
    n.add("Pipe", "pipe", pr=0.9, Q=-1e5)
    n.add("SimpleHeatExchanger", "heater", Q=3e5)
    n.add("Merge", "merge", num_in=2)
    n.add("Sink", "sink")
    n.link("1", "source", "out1", "split", "in1", fluid={"water": 1}, p=5,
           T=60)
    n.link("2", "split", "out1", "pipe", "in1", m=2)
    n.link("3", "split", "out2", "heater", "in1")
    n.link("4", "pipe", "out1", "merge", "in1")
    n.link("5", "heater", "out1", "merge", "in2")
    n.link("6", "merge", "out1", "sink", "in1")
    n.conn["3"].set_attr(m=n.N.Ref(n.conn["2"], 1.5, 0.25))
    return n


def mixing(**k):
    """two gas streams of different composition and temperature"""
    n = Net(**k)
    n.add("Source", "air")
    n.add("Source", "co2")
    n.add("Merge", "merge", num_in=2)
    n.add("Compressor", "compressor", eta_s=0.82, pr=3)
    n.add("Sink", "sink")
    n.link("1", "air", "out1", "merge", "in1",
           fluid={"N2": 0.76, "O2": 0.24, "CO2": 0}, m=4, T=40, p=1)
    n.link("2", "co2", "out1", "merge", "in2",
           fluid={"N2": 0, "O2": 0, "CO2": 1}, m=1.5, T=90)
    n.link("3", "merge", "out1", "compressor", "in1",
           fluid0={"N2": 0.5, "O2": 0.2, "CO2": 0.3})
    n.link("4", "compressor", "out1", "sink", "in1")
    return n


def combustion(**k):
    n = Net(**k)
    n.add("Source", "air")
    n.add("Source", "fuel")
    n.add("CombustionChamber", "chamber", lamb=2.2)
    n.add("Turbine", "turbine", eta_s=0.9)
    n.add("Sink", "stack")
    n.link("1", "air", "out1", "chamber", "in1",
           fluid={"N2": 0.755, "O2": 0.232, "Ar": 0.013}, m=15, T=350, p=12)
    n.link("2", "fuel", "out1", "chamber", "in2", fluid={"CH4": 1}, T=25)
    n.link("3", "chamber", "out1", "turbine", "in1")
    n.link("4", "turbine", "out1", "stack", "in1", p=1.05)
    return n


def heat_pump(**k):
    """closed cycle with condenser on a consumer side and valve"""
    n = Net(**k)
    n.add("CycleCloser", "cc")
    n.add("Compressor", "compressor", eta_s=0.8)
    n.add("Condenser", "condenser", pr1=0.99, pr2=0.98)
    n.add("Valve", "valve")
    n.add("SimpleHeatExchanger", "evaporator", pr=0.97)
    n.add("Source", "return")
    n.add("Sink", "feed")
    n.link("1", "evaporator", "out1", "cc", "in1", x=1,
           fluid={"R134a": 1}, T=5)
    n.link("2", "cc", "out1", "compressor", "in1")
    n.link("3", "compressor", "out1", "condenser", "in1")
    n.link("4", "condenser", "out1", "valve", "in1", p=18)
    n.link("5", "valve", "out1", "evaporator", "in1")
    n.link("6", "return", "out1", "condenser", "in2", fluid={"water": 1},
           T=30, p=2, m=3)
    n.link("7", "condenser", "out2", "feed", "in1", T=45)
    return n


def drum(**k):
    """steam drum with forced circulation"""
    n = Net(**k)
    n.add("Source", "feed")
    n.add("Drum", "drum")
    n.add("Pump", "circ", eta_s=0.7)
    n.add("SimpleHeatExchanger", "evaporator", pr=0.98)
    n.add("SimpleHeatExchanger", "superheater", pr=0.97)
    n.add("Sink", "steam")
    n.link("1", "feed", "out1", "drum", "in1", fluid={"water": 1}, m=5,
           T=180, p=42)
    n.link("2", "drum", "out1", "circ", "in1", m=20)
    n.link("3", "circ", "out1", "evaporator", "in1")
    n.link("4", "evaporator", "out1", "drum", "in2")
    n.link("5", "drum", "out2", "superheater", "in1")
    n.link("6", "superheater", "out1", "steam", "in1", T=400)
    return n


def steam(**k):
    """wet steam turbine and condenser with a pinch inside"""
    n = Net(**k)
    n.add("Source", "boiler")
    n.add("SteamTurbine", "turbine", eta_s_dry=0.88, alpha=1.0)
    n.add("MovingBoundaryHeatExchanger", "condenser", pr1=1, pr2=1,
          td_pinch=6)
    n.add("Sink", "condensate")
    n.add("Source", "river")
    n.add("Sink", "sea")
    n.link("1", "boiler", "out1", "turbine", "in1", fluid={"water": 1},
           m=10, p=20, T=250)
    n.link("2", "turbine", "out1", "condenser", "in1", p=0.2, h0=2350)
    n.link("3", "condenser", "out1", "condensate", "in1", T=45)
    n.link("4", "river", "out1", "condenser", "in2", fluid={"water": 1},
           p=2, T=15, m0=140)
    n.link("5", "condenser", "out2", "sea", "in1", h0=220)
    return n


def fuel_cell(**k):
    n = Net(**k)
    n.add("Source", "oxygen")
    n.add("Source", "hydrogen")
    n.add("Source", "cooling")
    n.add("Sink", "warm")
    n.add("Valve", "relief", pr=0.8)
    n.add("Sink", "water")
    n.add("FuelCell", "cell", eta=0.45, P=-2e5, pr=0.9)
    n.link("1", "cooling", "out1", "cell", "in1", fluid={"H2O": 1}, T=25,
           p=1)
    n.link("2", "cell", "out1", "warm", "in1", T=40)
    n.link("3", "oxygen", "out1", "cell", "in2", T=25, p=1.5)
    n.link("4", "hydrogen", "out1", "cell", "in3", T=25)
    n.link("5", "cell", "out2", "relief", "in1", T=50)
    n.link("6", "relief", "out1", "water", "in1")
    return n


def electrolyzer(**k):
    n = Net(**k)
    n.add("Source", "water")
    n.add("Sink", "oxygen")
    n.add("Sink", "hydrogen")
    n.add("Source", "cooling")
    n.add("Sink", "warm")
    n.add("Compressor", "compressor", eta_s=0.85)
    n.add("WaterElectrolyzer", "cell", eta=0.8, pr=0.99)
    n.link("1", "water", "out1", "cell", "in2", p=10, T=15)
    n.link("2", "cell", "out2", "oxygen", "in1")
    n.link("3", "cell", "out3", "compressor", "in1", m=0.08, T=50)
    n.link("4", "compressor", "out1", "hydrogen", "in1", p=25)
    n.link("5", "cooling", "out1", "cell", "in1", fluid={"H2O": 1}, p=5,
           T=15)
    n.link("6", "cell", "out1", "warm", "in1", T=45)
    return n


def engine(**k):
    """combustion engine with parallel cooling"""
    n = Net(**k)
    for x in ("air", "fuel", "cold"):
        n.add("Source", x)
    n.add("Splitter", "split", num_out=2)
    n.add("Merge", "merge", num_in=2)
    n.add("Sink", "warm")
    n.add("Sink", "stack")
    n.add("CombustionEngine", "engine", pr1=0.99, P=-1e7, lamb=1.1,
          design=["pr1"], offdesign=["zeta1"])
    n.link("1", "air", "out1", "engine", "in3", p=5, T=30,
           fluid={"N2": 0.7553, "O2": 0.2314, "Ar": 0.0133})
    n.link("2", "fuel", "out1", "engine", "in4", T=30, fluid={"CH4": 1})
    n.link("3", "engine", "out3", "stack", "in1")
    n.link("4", "cold", "out1", "split", "in1", p=3, T=60, m=50,
           fluid={"H2O": 1})
    n.link("5", "split", "out1", "engine", "in1")
    n.link("6", "split", "out2", "engine", "in2",
           m=n.N.Ref(n.conn["5"], 1, 0))
    n.link("7", "engine", "out1", "merge", "in1")
    n.link("8", "engine", "out2", "merge", "in2")
    n.link("9", "merge", "out1", "warm", "in1")
    return n


def gas_turbine(**k):
    """compressor with its map, chamber with losses, Stodola's cone"""
    n = Net(**k)
    n.add("Source", "air")
    n.add("Source", "fuel")
    n.add("Compressor", "compressor", eta_s=0.85, pr=12,
          design=["eta_s", "pr"],
          offdesign=["char_map_eta_s", "char_map_pr"], igva=0)
    n.add("DiabaticCombustionChamber", "chamber", eta=0.98, pr=0.96,
          lamb=2.8)
    n.add("Turbine", "turbine", eta_s=0.89, design=["eta_s"],
          offdesign=["eta_s_char", "cone"])
    n.add("Sink", "stack")
    n.link("1", "air", "out1", "compressor", "in1", p=1, T=15, m=20,
           fluid={"N2": 0.755, "O2": 0.232, "Ar": 0.013}, design=["m"])
    n.link("2", "compressor", "out1", "chamber", "in1")
    n.link("3", "fuel", "out1", "chamber", "in2", p=20, T=20,
           fluid={"CH4": 0.9, "H2": 0.1})
    n.link("4", "chamber", "out1", "turbine", "in1")
    n.link("5", "turbine", "out1", "stack", "in1", p=1.02)
    return n


def solar(**k):
    """incompressible fluid, rough pipes, collectors"""
    n = Net(**k)
    n.add("Source", "source")
    n.add("Pump", "pump", eta_s=0.7, design=["eta_s"],
          offdesign=["eta_s_char"])
    n.add("Pipe", "pipe", L=150, D=0.12, ks=2e-4, Q=-3e3,
          design=["Q"], offdesign=["kA"], Tamb=15)
    n.add("ParabolicTrough", "trough", aoi=20, doc=0.95, Tamb=20, A=2500,
          eta_opt=0.816, c_1=0.0622, c_2=0.00023, E=900, iam_1=-1.59e-3,
          iam_2=9.77e-5, pr=0.95)
    n.add("SolarCollector", "flat", E=700, eta_opt=0.8, lkf_lin=0.6,
          lkf_quad=0.002, A=300, Tamb=15, pr=0.98)
    n.add("Sink", "sink")
    n.chain("source", "pump", "pipe", "trough", "flat", "sink")
    c = n.conn
    c["1"].set_attr(fluid={"INCOMP::S800": 1}, m=20, p=3, T=120)
    c["2"].set_attr(p=12)
    return n


NETS = {"linear": linear, "rankine": rankine,
        "heat exchanger": heat_exchanger, "split and merge": split_merge,
        "mixing": mixing, "combustion": combustion, "heat pump": heat_pump,
        "drum": drum, "steam": steam, "fuel cell": fuel_cell,
        "electrolyzer": electrolyzer, "engine": engine,
        "gas turbine": gas_turbine, "solar": solar}
# documented: without specification these become variables of the system
OPEN = {"FuelCell": ("P",), "WaterElectrolyzer": ("P",),
        "CombustionEngine": ("P", "Qloss")}
REACT = ("CombustionChamber", "FuelCell", "WaterElectrolyzer",
         "CombustionEngine", "DiabaticCombustionChamber")


# --------------------------------------------------------- judging a state
def energy_exchange(cp):
    """heat and work taken up by the streams, as reported by the component
    (0 for adiabatic nodes)"""
    for k in ("P", "Q"):
        d = getattr(cp, k, None)
        if d is not None and len(cp.inl) == 1:
            return float(d.val)
    return 0.0


def judge(ctx, net, tag=""):
    """a converged state conserves mass, species and energy at every
    component and meets every specification"""
    from tespy.tools.helpers import convert_from_SI
    nw = net.nw
    ctx.true(tag + "converged", nw.converged is True or
             bool(nw.converged) and not nw.lin_dep)
    for cp in nw.comps["object"]:
        if not cp.inl or not cp.outl:
            continue
        mi = [c.m.val_SI for c in cp.inl]
        mo = [c.m.val_SI for c in cp.outl]
        ctx.eq(f"{tag}mass[{cp.label}]", sum(mo), sum(mi), tol=1e-5)
        if type(cp).__name__ in REACT:
            continue
        for f in {f for c in cp.inl + cp.outl for f in c.fluid.val}:
            ctx.eq(f"{tag}species[{cp.label}]",
                   sum(c.m.val_SI * c.fluid.val.get(f, 0) for c in cp.outl),
                   sum(c.m.val_SI * c.fluid.val.get(f, 0) for c in cp.inl),
                   tol=1e-4, scale=sum(mi))
        H = sum(c.m.val_SI * c.h.val_SI for c in cp.outl) - sum(
            c.m.val_SI * c.h.val_SI for c in cp.inl)
        S = max(abs(c.m.val_SI * c.h.val_SI) for c in cp.inl + cp.outl)
        ctx.eq(f"{tag}energy[{cp.label}]", H, energy_exchange(cp), tol=1e-5,
               scale=S)
        if len(cp.inl) == 1 and hasattr(cp, "pr") and cp.pr.is_set:
            ctx.eq(f"{tag}pr[{cp.label}]", cp.outl[0].p.val_SI,
                   cp.pr.val * cp.inl[0].p.val_SI, tol=1e-6)
    for c in nw.conns["object"]:
        for k in ("m", "p", "h", "T", "x", "v", "Td_bp"):
            d = c.get_attr(k)
            if d.is_set and k in net.specs.get(c.label, {}):
                ctx.eq(f"{tag}spec[{c.label}.{k}]", d.val,
                       net.specs[c.label][k], tol=1e-5, scale=10)
        for k in ("m", "p", "h", "T", "v"):
            d = c.get_attr(k)
            ctx.eq(f"{tag}unit[{c.label}.{k}]", d.val, convert_from_SI(
                k, d.val_SI, nw.get_attr(k + "_unit")), tol=1e-9)
        for k in ("m", "p", "h"):
            r = c.get_attr(k + "_ref")
            if r.is_set:
                o = r.ref.obj.get_attr(k).val_SI
                ctx.eq(f"{tag}ref[{c.label}.{k}]", c.get_attr(k).val_SI,
                       o * r.ref.factor + r.ref.delta_SI, tol=1e-6)


def snapshot(net):
    """the user's specifications"""
    s = {}
    for label, c in net.conn.items():
        s[label] = {k: float(c.get_attr(k).val) for k in (
            "m", "p", "h", "T", "x", "v", "Td_bp") if c.get_attr(k).is_set}
    net.specs = s
    net.fluids = {lb: {f: c.fluid.val[f] for f in c.fluid.is_set}
                  for lb, c in net.conn.items()}
    net.cspecs = {lb: {k: float(d.val) for k, d in cp.parameters.items()
                       if getattr(d, "is_set", False) and hasattr(d, "val")
                       and isinstance(d.val, (int, float))}
                  for lb, cp in net.comp.items()}
    return net


def build(name, **k):
    return snapshot(NETS[name](**k))
