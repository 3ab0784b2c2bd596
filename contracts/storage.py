"""C14: saving, exporting and loading."""
import json
import os
import random

import numpy as np

from vc.engine import is_sym
from vc.runner import Harness

from . import nets


# ------------------------------------------------------------ json contract
class Json:
    """contract of json.dump / json.load: what is loaded is what was dumped,
    with tuples as lists and keys as strings; anything else goes through
    `default` or raises TypeError.  Numbers may be symbolic."""

    def __init__(self):
        self.store = []

    def norm(self, x, default):
        if is_sym(x) or x is None or isinstance(x, (bool, int, float, str)):
            return x
        if isinstance(x, dict):
            return {k if isinstance(k, str) else json.dumps(k):
                    self.norm(v, default) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.norm(v, default) for v in x]
        if default is None:
            raise TypeError(f"{type(x)} is not JSON serializable")
        return self.norm(default(x), default)

    def dump(self, x, f, default=None, **k):
        self.store.append(self.norm(x, default))
        f.write(str(len(self.store) - 1))

    def load(self, f, **k):
        return self.norm(self.store[int(f.read())], None)

    def __enter__(self):
        import tespy.networks.network as n
        import tespy.networks.network_reader as r
        self.old = (n.json, r.json)

        class M:
            dump, load = staticmethod(self.dump), staticmethod(self.load)
        n.json = r.json = M
        return self

    def __exit__(self, *a):
        import tespy.networks.network as n
        import tespy.networks.network_reader as r
        n.json, r.json = self.old


class real_json:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def io(ctx):
    return Json() if ctx.mode == "sym" else real_json()


# ------------------------------------------------------------------ filling
def line(ctx, name, n=3, extrapolate=False):
    from tespy.tools.characteristics import CharLine
    ln = CharLine(x=list(range(n)), y=list(range(n)),
                  extrapolate=extrapolate)
    xs = [ctx.real(f"{name}.x{i}", typ=(i, i + 0.9)) for i in range(n)]
    ys = [ctx.real(f"{name}.y{i}", typ=(-2, 2)) for i in range(n)]
    ln.x, ln.y = arr(ctx, xs), arr(ctx, ys)
    return ln


def map_(ctx, name):
    from tespy.tools.characteristics import CharMap
    cm = CharMap(x=[0, 1], y=[[0, 1, 2], [0, 1, 2]],
                 z=[[0, 1, 2], [0, 1, 2]])
    cm.x = arr(ctx, [ctx.real(f"{name}.x{i}", typ=(i, i + 1))
                     for i in range(2)])
    for k in "yz":
        a = np.empty((2, 3), dtype=object if ctx.mode == "sym" else float)
        for i in range(2):
            for j in range(3):
                a[i, j] = ctx.real(f"{name}.{k}{i}{j}", typ=(j, j + 1))
        setattr(cm, k, a)
    return cm


def arr(ctx, xs):
    if ctx.mode != "sym":
        return np.array(xs, dtype=float)
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


FLAGS = ("all", "none", "even", "odd")


def flag(mode, i):
    return {"all": True, "none": False, "even": i % 2 == 0,
            "odd": i % 2 == 1}[mode]


def fill(ctx, cp, mode, plain=False):
    """arbitrary values for everything a user can specify on a component
    (plain: numbers stay at their defaults)"""
    from tespy.tools import data_containers as D
    for i, (k, d) in enumerate(sorted(cp.parameters.items())):
        on = flag(mode, i)
        nm = f"{cp.label}.{k}"
        if isinstance(d, D.ComponentProperties):
            d.is_set = on
            d.is_var = flag(mode, i // 2) and on
            if plain:
                continue
            d.val = ctx.real(nm, typ=(0, 9))
            d.min_val = ctx.real(nm + ".min", typ=(-9, 0))
            d.max_val = ctx.real(nm + ".max", typ=(9, 20))
            d.d = ctx.real(nm + ".d", typ=(1e-4, 1e-3))
        elif isinstance(d, D.ComponentCharacteristics):
            d.is_set = on
            d.char_func = line(ctx, nm, 2 + (i + on) % 2,
                               extrapolate=flag(mode, i // 3)) \
                if (i + plain) % 4 else None
            d.param = "v" if on else d.param
            d.char_params = {"type": "abs" if on else "rel",
                             "inconn": 0, "outconn": 1 if on else 0}
        elif isinstance(d, D.ComponentCharacteristicMaps):
            d.is_set = on
            d.char_func = map_(ctx, nm) if i % 3 else None
            d.param = "T" if on else d.param
        elif isinstance(d, D.SimpleDataContainer):
            if not k.startswith("num_") and d.func is None and \
                    not plain and not isinstance(d.val, (bool, str)):
                d.val = ctx.real(nm, typ=(0, 9))
            d.is_set = on
        elif isinstance(d, D.GroupedComponentCharacteristics):
            d.is_set = on
        elif isinstance(d, D.GroupedComponentProperties):
            pass    # follows from its elements
        else:
            ctx.true(f"known container[{k}]", False)


PLAIN = ("design", "offdesign", "local_design", "local_offdesign",
         "design_path", "printout", "fkt_group", "char_warnings")


def same_line(ctx, tag, a, b):
    ctx.true(tag + ".kind", type(a) is type(b))
    if a is None or type(a) is not type(b):
        return
    for k in ("x", "y", "z"):
        if hasattr(a, k):
            p, q = getattr(a, k), getattr(b, k)
            ctx.true(f"{tag}.{k}.shape", p.shape == q.shape)
            for i, (u, v) in enumerate(zip(p.ravel(), q.ravel())):
                ctx.eq(f"{tag}.{k}[{i}]", v, u)
    if hasattr(a, "extrapolate"):
        ctx.true(tag + ".extrapolate", a.extrapolate == b.extrapolate)


def same_component(ctx, a, b):
    from tespy.tools import data_containers as D
    tag = a.label
    ctx.true(f"{tag}.class", type(a) is type(b))
    ctx.true(f"{tag}.label", a.label == b.label)
    for k in PLAIN:
        ctx.true(f"{tag}.{k}", getattr(a, k) == getattr(b, k))
    ctx.true(f"{tag}.parameters", set(a.parameters) == set(b.parameters))
    ctx.true(f"{tag}.ports", a.inlets() == b.inlets() and
             a.outlets() == b.outlets())
    for k, d in a.parameters.items():
        e = b.get_attr(k)
        ctx.true(f"{tag}.{k}.separate", e is not d)
        ctx.true(f"{tag}.{k}.kind", type(d) is type(e))
        if isinstance(d, D.GroupedComponentProperties):
            continue
        ctx.true(f"{tag}.{k}.is_set", bool(d.is_set) == bool(e.is_set) and
                 isinstance(e.is_set, bool))
        if isinstance(d, D.ComponentProperties):
            for q in ("val", "min_val", "max_val", "d"):
                value(ctx, f"{tag}.{k}.{q}", d.get_attr(q), e.get_attr(q))
            ctx.true(f"{tag}.{k}.is_var", d.is_var == e.is_var)
        elif isinstance(d, (D.ComponentCharacteristics,
                            D.ComponentCharacteristicMaps)):
            ctx.true(f"{tag}.{k}.param", d.param == e.param)
            if isinstance(d, D.ComponentCharacteristics):
                ctx.true(f"{tag}.{k}.char_params",
                         d.char_params == e.char_params)
            same_line(ctx, f"{tag}.{k}", d.char_func, e.char_func)
        elif not isinstance(d, D.GroupedComponentCharacteristics):
            value(ctx, f"{tag}.{k}", d.val, e.val)


def value(ctx, tag, a, b):
    if is_sym(a) or is_sym(b) or (
            isinstance(a, (int, float)) and not isinstance(a, bool)):
        if not is_sym(a) and a != a:
            ctx.true(tag, b != b)
        else:
            ctx.eq(tag, b, a, tol=1e-14)
    else:
        ctx.true(tag, a == b and type(a) is type(b))


# --------------------------------------------------------------- components
def classes():
    import tespy.components as C
    from tespy.components.component import Component
    return sorted(k for k, v in vars(C).items() if isinstance(v, type) and
                  issubclass(v, Component) and v is not Component)


def build(cls, label):
    import warnings
    import tespy.components as C
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(C, cls)(label)


def component(cls):
    """export_components followed by the reader gives the component back"""
    def fn(ctx):
        import warnings
        import pandas as pd
        import tespy.networks.network_reader as r
        from tespy.components.component import component_registry
        from tespy.networks import Network
        mode = ctx.choice("set", FLAGS)
        plain = ctx.choice("plain", (False, True))
        a, b = build(cls, "a"), build(cls, "b")
        for cp in (a, b):
            if "num_in" in cp.parameters:
                cp.set_attr(num_in=3)
            if "num_out" in cp.parameters:
                cp.set_attr(num_out=3)
            if "num_inter" in cp.parameters:
                cp.set_attr(num_inter=2)
            fill(ctx, cp, mode, plain)
        keys = sorted(a.parameters)
        a.set_attr(design=keys[:2], offdesign=keys[1:3], printout=False,
                   local_design=True, design_path="some/path")
        b.set_attr(local_offdesign=True, fkt_group="g", char_warnings=False)
        nw = Network()
        nw.comps = pd.DataFrame({"comp_type": [cls, cls], "object": [a, b]},
                                index=["a", "b"])
        with nets.scratch() as d, io(ctx), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nw.export_components(d)
            ctx.true("file", sorted(os.listdir(d)) == [cls + ".json"])
            with open(os.path.join(d, cls + ".json")) as f:
                data = r.json.load(f)
            got = r._construct_components(component_registry.items[cls],
                                          data)
        ctx.true("labels", set(got) == {"a", "b"})
        same_component(ctx, a, got["a"])
        same_component(ctx, b, got["b"])
        ctx.true("apart", got["a"].parameters is not got["b"].parameters)
        # the loaded component accepts changes
        for cp in got.values():
            for k, dc in cp.parameters.items():
                cp.set_attr(**{k: None})
                ctx.true("unset", not dc.is_set)
    return Harness(f"component[{cls}]", fn, repl=lambda: [], conc=8,
                   assumptions=["json.dump/json.load by their contract"])


# -------------------------------------------------------------- connections
QUANT = ("m", "p", "h", "T", "v", "x", "Td_bp", "vol", "s")


def connections():
    def fn(ctx):
        import tespy.networks.network_reader as r
        from tespy.connections import Connection, Ref
        from tespy.networks import Network
        from tespy.tools.fluid_properties.wrappers import (
            CoolPropWrapper, IAPWSWrapper)
        mode = ctx.choice("set", FLAGS)
        cp = {k: build(t, k) for k, t in (
            ("so", "Source"), ("va", "Valve"), ("pi", "Pipe"),
            ("si", "Sink"))}
        cs = [Connection(cp["so"], "out1", cp["va"], "in1", label="01"),
              Connection(cp["va"], "out1", cp["pi"], "in1"),
              Connection(cp["pi"], "out1", cp["si"], "in1", label="x y")]
        for n, c in enumerate(cs):
            for i, k in enumerate(QUANT):
                d = c.get_attr(k)
                d.val = ctx.real(f"{n}.{k}", typ=(1, 9))
                d.val0 = ctx.real(f"{n}.{k}0", typ=(1, 9))
                d.is_set = flag(mode, i + n)
                d.unit = "unit " + k
            c.fluid.val = {"H2O": ctx.real(f"{n}.w", 0, 1, typ=(0.1, 0.9)),
                           "N2": ctx.real(f"{n}.a", 0, 1, typ=(0.1, 0.9))}
            c.fluid.val0 = {"H2O": ctx.real(f"{n}.w0", 0, 1,
                                            typ=(0.1, 0.9))}
            c.fluid.is_set = {"all": {"H2O", "N2"}, "none": set(),
                              "even": {"H2O"}, "odd": {"N2"}}[mode]
            c.fluid.engine = {"H2O": CoolPropWrapper if n else
                              IAPWSWrapper, "N2": CoolPropWrapper}
            c.fluid.back_end = {"H2O": "IF97" if n == 1 else None,
                                "N2": "HEOS"}
            c.fluid_balance.is_set = flag(mode, n)
        for i, k in enumerate(("m", "p", "h", "T", "v")):
            for n in (1, 2):
                if (i + n) % 3:
                    q = cs[n].get_attr(k + "_ref")
                    q.ref = Ref(cs[(n + i) % 3 if (n + i) % 3 != n else 0],
                                ctx.real(f"{n}.{k}.f", typ=(1, 3)),
                                ctx.real(f"{n}.{k}.d", typ=(1, 3)))
                    q.is_set = flag(mode, i + n)
        cs[0].set_attr(design=["m"], offdesign=["p", "T"],
                       local_design=True, design_path="a/b",
                       mixing_rule="ideal-cond")
        cs[1].set_attr(local_offdesign=True, printout=False, state="l")
        cs[2].set_attr(state="g")
        nw = Network()
        for c in cs:
            nw.add_conns(c)
        import tespy.connections.connection as CC
        made = []
        real = CC.Connection._create_fluid_wrapper
        CC.Connection._create_fluid_wrapper = lambda self: made.append(self)
        try:
            with nets.scratch() as d, io(ctx):
                nw.export_connections(d)
                with open(os.path.join(d, "connections.json")) as f:
                    data = r.json.load(f)
                got = r._construct_connections(data, cp)
        finally:
            CC.Connection._create_fluid_wrapper = real
        ctx.true("labels", list(got) == [c.label for c in cs])
        ctx.true("wrappers", set(made) == set(got.values()))
        for c in cs:
            g = got[c.label]
            t = c.label
            for k in ("label", "source", "source_id", "target", "target_id",
                      "design", "offdesign", "local_design",
                      "local_offdesign", "design_path", "printout",
                      "mixing_rule"):
                ctx.true(f"{t}.{k}", getattr(c, k) == getattr(g, k))
            for k in QUANT:
                a, b = c.get_attr(k), g.get_attr(k)
                value(ctx, f"{t}.{k}", a.val, b.val)
                value(ctx, f"{t}.{k}0", a.val0, b.val0)
                ctx.true(f"{t}.{k}.is_set", a.is_set == b.is_set)
            ctx.true(f"{t}.state", c.state.is_set == g.state.is_set and (
                not c.state.is_set or c.state.val == g.state.val))
            ctx.true(f"{t}.balance", bool(c.fluid_balance.is_set) ==
                     bool(g.fluid_balance.is_set))
            a, b = c.fluid, g.fluid
            for what in ("val", "val0"):
                p, q = getattr(a, what), getattr(b, what)
                ctx.true(f"{t}.fluid.{what}", set(p) == set(q))
                for f in p:
                    value(ctx, f"{t}.fluid.{what}[{f}]", p[f], q[f])
            ctx.true(f"{t}.fluid.is_set", set(a.is_set) == set(b.is_set))
            ctx.true(f"{t}.fluid.engine", a.engine == b.engine)
            ctx.true(f"{t}.fluid.back_end", a.back_end == b.back_end)
            for k in ("m", "p", "h", "T", "v"):
                a, b = c.get_attr(k + "_ref"), g.get_attr(k + "_ref")
                ctx.true(f"{t}.{k}_ref.is_set", a.is_set == b.is_set)
                ctx.true(f"{t}.{k}_ref", (a.ref is None) == (b.ref is None))
                if a.ref is not None and b.ref is not None:
                    ctx.true(f"{t}.{k}_ref.to",
                             b.ref.obj is got[a.ref.obj.label])
                    value(ctx, f"{t}.{k}_ref.factor", a.ref.factor,
                          b.ref.factor)
                    value(ctx, f"{t}.{k}_ref.delta", a.ref.delta,
                          b.ref.delta)
            # the loaded connection accepts changes
            g.set_attr(fluid={"O2": 0.25, "N2": None})
            ctx.true(f"{t}.changed", set(g.fluid.is_set) ==
                     set(c.fluid.is_set) - {"N2"} | {"O2"})
    return Harness("connections", fn, repl=lambda: [], conc=4,
                   bounded="three connections", assumptions=[
                       "json.dump/json.load by their contract"])


def busses():
    def fn(ctx):
        import tespy.networks.network_reader as r
        from tespy.connections import Bus
        from tespy.networks import Network
        nw = Network()
        cp = {k: build(t, k) for k, t in (
            ("a", "Turbine"), ("b", "Pump"), ("c", "CombustionEngine"))}
        bs = []
        for n in range(3):
            b = Bus(f"bus {n}")
            on = ctx.choice(f"P{n}", (True, False))
            b.P.val = ctx.real(f"{n}.P", typ=(-9, 9))
            b.P.is_set = on
            for i, (k, c) in enumerate(cp.items()):
                if i == n:
                    continue
                b.add_comps({"comp": c, "char": line(
                    ctx, f"{n}.{k}", 2 + (i + n) // 2, extrapolate=n > 0),
                             "base": ("bus", "component")[(i + n) % 2],
                             "param": "Q1" if k == "c" else None})
            bs.append(b)
        nw.add_busses(*bs)
        with nets.scratch() as d, io(ctx):
            nw.export_busses(d)
            with open(os.path.join(d, "busses.json")) as f:
                data = r.json.load(f)
            got = r._construct_busses(data, cp)
        ctx.true("labels", list(got) == [b.label for b in bs])
        for b in bs:
            g = got[b.label]
            value(ctx, b.label + ".P", b.P.val, g.P.val)
            ctx.true(b.label + ".P.is_set", b.P.is_set == g.P.is_set)
            ctx.true(b.label + ".comps", list(g.comps.index) ==
                     list(b.comps.index))
            for c in b.comps.index:
                t = f"{b.label}.{c.label}"
                for k in ("param", "base"):
                    ctx.true(f"{t}.{k}", b.comps.loc[c, k] ==
                             g.comps.loc[c, k])
                same_line(ctx, t, b.comps.loc[c, "char"],
                          g.comps.loc[c, "char"])
    return Harness("busses", fn, repl=lambda: [], conc=4,
                   bounded="three busses, two components each",
                   assumptions=["json.dump/json.load by their contract"])


def network():
    def fn(ctx):
        import tespy.networks.network_reader as r
        from tespy.networks import Network
        from tespy.tools.global_vars import fluid_property_data as fpd
        props = ("m", "p", "h", "T", "x", "v", "s")
        units = {}
        for p in props:
            us = sorted(fpd[p]["units"])
            units[p] = ctx.choice(p, us) if p in ("m", "p", "h") \
                else us[-1]
        lims = {p: [ctx.real(f"{p}.lo", typ=(1, 2)),
                    ctx.real(f"{p}.hi", typ=(3, 4))] for p in "mph"}
        nw = Network(**{p + "_unit": u for p, u in units.items()},
                     **{p + "_range": list(v) for p, v in lims.items()})
        with nets.scratch() as d, io(ctx):
            nw.export_network(d)
            g = r._construct_network(d)
        for p in props:
            ctx.true(f"{p}_unit", g.get_attr(p + "_unit") == units[p])
        for p in "mph":
            for i in (0, 1):
                ctx.eq(f"{p}_range[{i}]", g.get_attr(p + "_range")[i],
                       lims[p][i], tol=1e-9)
                ctx.eq(f"{p}_range_SI[{i}]",
                       g.get_attr(p + "_range_SI")[i],
                       nw.get_attr(p + "_range_SI")[i], tol=1e-9)
    return Harness("network", fn, repl=lambda: [], conc=8, max_paths=4000,
                   assumptions=["json.dump/json.load by their contract"])


# ------------------------------------------------------------ whole networks
def spec(nw):
    """everything a user specifies, as comparable data"""
    out = {}
    for c in nw.conns["object"]:
        d = {k: (c.get_attr(k).val, c.get_attr(k).unit) for k in QUANT
             if c.get_attr(k).is_set}
        for k in ("m", "p", "h", "T", "v"):
            q = c.get_attr(k + "_ref")
            if q.is_set:
                d[k + "_ref"] = (q.ref.obj.label, q.ref.factor, q.ref.delta)
        for k in ("source_id", "target_id", "design", "offdesign",
                  "local_design", "local_offdesign", "design_path",
                  "mixing_rule"):
            d[k] = getattr(c, k)
        d["ends"] = (c.source.label, c.target.label)
        d["fluid"] = {f: c.fluid.val[f] for f in c.fluid.is_set}
        d["engine"] = {f: c.fluid.engine[f].__name__
                       if f in c.fluid.engine else "CoolPropWrapper"
                       for f in c.fluid.is_set}
        d["back_end"] = {f: c.fluid.back_end.get(f)
                         for f in c.fluid.is_set}
        d["state"] = c.state.val if c.state.is_set else None
        d["balance"] = bool(c.fluid_balance.is_set)
        out["conn", c.label] = d
    for cp in nw.comps["object"]:
        d = {}
        for k, x in cp.parameters.items():
            if getattr(x, "is_set", False) and hasattr(x, "val"):
                d[k] = (x.val, getattr(x, "is_var", False))
            elif getattr(x, "is_set", False) and hasattr(x, "char_func"):
                d[k] = True
        for k in PLAIN:
            d[k] = getattr(cp, k)
        out["comp", type(cp).__name__, cp.label] = d
    for b in nw.busses.values():
        out["bus", b.label] = (b.P.val if b.P.is_set else None, [
            (c.label, b.comps.loc[c, "param"], b.comps.loc[c, "base"],
             b.comps.loc[c, "char"].x.tolist(),
             b.comps.loc[c, "char"].y.tolist()) for c in b.comps.index])
    for k in ("m", "p", "h", "T", "x", "v", "s"):
        out[k + "_unit"] = nw.get_attr(k + "_unit")
    return out


def results(nw):
    out = {}
    for c in nw.conns["object"]:
        for k in ("m", "p", "h", "T", "v", "s"):
            out[c.label, k] = float(c.get_attr(k).val_SI)
        for f, v in c.fluid.val.items():
            out[c.label, "fluid", f] = v
    for cp in nw.comps["object"]:
        for k in ("P", "Q", "eta_s", "pr", "kA", "zeta", "zeta1", "zeta2",
                  "ttd_u", "lamb", "ti"):
            if k in cp.parameters:
                out[cp.label, k] = cp.get_attr(k).val
    for b in nw.busses.values():
        out[b.label] = b.P.val
    return out


def compare(ctx, tag, a, b, tol=1e-5):
    ctx.true(tag + ".keys", set(a) == set(b))
    for k, v in a.items():
        if k in b and v == v:
            ctx.eq(f"{tag}[{k}]", b[k], v, tol=tol, scale=1e-3)


def roundtrip(name):
    """export before or after solving, load, solve: the same network"""
    def fn(ctx):
        from tespy.networks import load_network
        np.random.seed(7)
        for when in ("before", "after", "twice"):
            n = nets.build(name)
            nw = n.nw
            with nets.scratch() as d, nets.quiet():
                p = os.path.join(d, "x", "y")
                if when != "before":
                    nets.solve(nw)
                before = spec(nw)
                nw.export(p)
                ctx.true(when + ".untouched", spec(nw) == before)
                if when == "twice":
                    nw.export(p)
                g = load_network(p)
                s = spec(g)
                ctx.true(when + ".objects", set(s) == set(before))
                if when == "before":
                    # units are known from the first calculation on
                    for c in nw.conns["object"]:
                        for k in QUANT:
                            c.get_attr(k).unit = None
                    for c in g.conns["object"]:
                        for k in QUANT:
                            c.get_attr(k).unit = None
                    before, s = spec(nw), spec(g)
                for k in before:
                    ctx.true(f"{when}.{k}", s.get(k) == before[k])
                if when == "before":
                    nets.solve(nw)
                nets.solve(g)
                ctx.true(when + ".converged", bool(g.converged))
                compare(ctx, when, results(nw), results(g))
                ctx.true(when + ".spec again", set(spec(g)) == set(before))
    return Harness(f"roundtrip[{name}]", fn, sym=False, conc=1,
                   bounded="this network", time_s=120)


def designed(name):
    """saved results read back: starting values, design values, off-design
    calculation at the design point; labels of any kind"""
    def fn(ctx):
        np.random.seed(7)
        n = nets.build(name)
        labels = ["01", "1", "1.0", "NA", "ü;x", "a b", "1e3", "None", "-0"]
        nw = n.nw
        with nets.scratch() as d, nets.quiet():
            # relabel: rebuild the network under difficult labels
            cs = list(nw.conns["object"])
            nw.del_conns(*cs)
            for lb, c in zip(labels, cs):
                c.label = lb
            nw.add_conns(*cs)
            nets.solve(nw)
            first = results(nw)
            vals = {c.label: {k: (c.get_attr(k).val_SI)
                              for k in ("m", "p", "h", "T", "v", "s")}
                    for c in nw.conns["object"]}
            par = {cp.label: {k: x.val for k, x in cp.parameters.items()
                              if type(x).__name__ == "ComponentProperties"
                              and (x.is_set or x.is_result)}
                   for cp in nw.comps["object"]}
            nw.save(d)
            ctx.true("saved", os.path.isfile(os.path.join(
                d, "connections.csv")))
            nets.solve(nw, "offdesign", design_path=d)
            ctx.true("converged", bool(nw.converged))
            compare(ctx, "offdesign", first, results(nw), tol=1e-4)
            for c in nw.conns["object"]:
                for k, v in vals[c.label].items():
                    ctx.eq(f"design[{c.label}.{k}]",
                           c.get_attr(k).design, v, tol=1e-9)
            for cp in nw.comps["object"]:
                for k, v in par[cp.label].items():
                    if v == v:
                        ctx.eq(f"design[{cp.label}.{k}]",
                               cp.get_attr(k).design, v, tol=1e-9)
            for b in nw.busses.values():
                for cp in b.comps.index:
                    ctx.eq("design[bus]", b.comps.loc[cp, "P_ref"],
                           nw.results[b.label].loc[
                               cp.label, "design value"], tol=1e-9)
            # starting values from the file
            for c in nw.conns["object"]:
                c.m.val0 = c.p.val0 = c.h.val0 = np.nan
            nets.solve(nw, init_path=d, init_only=True)
            for c in nw.conns["object"]:
                for k in ("m", "p", "h"):
                    q = c.get_attr(k)
                    if not q.is_set:
                        ctx.eq(f"start[{c.label}.{k}]", q.val_SI,
                               vals[c.label][k], tol=1e-6)
    return Harness(f"saved results[{name}]", fn, sym=False, conc=1,
                   bounded="this network", time_s=120)


def histories():
    """an export replaces an earlier one in the same place"""
    def fn(ctx):
        from tespy.networks import load_network
        np.random.seed(3)
        for first, second in (("rankine", "linear"), ("linear", "rankine"),
                              ("drum", "linear"), ("mixing", "rankine")):
            with nets.scratch() as d, nets.quiet():
                a, b = nets.build(first), nets.build(second)
                a.nw.export(d)
                b.nw.export(d)
                g = load_network(d)
                ctx.true(f"{first},{second}", {
                    k: None for k in spec(g)} == {k: None for k in
                                                  spec(b.nw)})
                for k, v in spec(b.nw).items():
                    ctx.true(f"{first},{second}[{k}]", spec(g)[k] == v)
        # the same label for another kind of component
        with nets.scratch() as d, nets.quiet():
            for kind in ("Pump", "Compressor", "Pump"):
                n = nets.Net()
                n.add("Source", "so")
                n.add(kind, "x", eta_s=0.8)
                n.add("Sink", "si")
                n.chain("so", "x", "si")
                n.conn["1"].set_attr(fluid={"water": 1}, m=1, p=1, T=30)
                n.conn["2"].set_attr(p=3)
                n.nw.export(d)
                g = load_network(d)
                ctx.true(f"kind[{kind}]",
                         type(g.get_comp("x")).__name__ == kind)
        # results next to the definition of a network without busses
        with nets.scratch() as d, nets.quiet():
            n = nets.build("linear")
            nets.solve(n.nw)
            n.nw.export(d)
            n.nw.save(d)
            g = load_network(d)
            ctx.true("both", spec(g) == spec(n.nw))
            nets.solve(n.nw, "offdesign", design_path=d)
            ctx.true("both.design", bool(n.nw.converged))
    return Harness("histories", fn, sym=False, conc=1,
                   bounded="these histories", time_s=120)


def values():
    """kinds of numbers, texts and specifications"""
    def fn(ctx):
        from tespy.networks import load_network
        from tespy.tools.characteristics import CharLine
        rnd = random.Random(11)
        for num in (1, 1.5, np.float64(1 / 3), np.float32(0.1),
                    np.int64(2), np.int32(2), True, 1e-300, 1.1e17,
                    rnd.random()):
            with nets.scratch() as d, nets.quiet():
                n = nets.build("linear")
                n.conn["1"].set_attr(m=num)
                n.comp["pump"].set_attr(eta_s=num)
                n.nw.set_attr(p_range=[1, 100])
                n.nw.export(d)
                g = load_network(d)
                t = repr(num)
                ctx.true(f"m[{t}]", g.get_conn("1").m.val == num)
                ctx.true(f"eta[{t}]", g.get_comp("pump").eta_s.val == num)
                ctx.true("range", [round(x, 9) for x in g.p_range] ==
                         [1, 100])
        for label in ("ü", "a b", "x:y", "01", "None", "a/b", '"'):
            with nets.scratch() as d, nets.quiet():
                n = nets.Net()
                n.add("Source", label)
                n.add("Pump", label + "2", eta_s=0.8)
                n.add("Sink", "si")
                n.link(label, label, "out1", label + "2", "in1",
                       fluid={"water": 1}, m=1, p=1, T=20)
                n.link(label + "1", label + "2", "out1", "si", "in1", p=2)
                b = n.N.Bus(label)
                b.add_comps({"comp": n.comp[label + "2"], "char": CharLine(
                    x=[0, 0.3, 1], y=[0.2, 1 / 3, 0.9],
                    extrapolate=True), "base": "bus"})
                n.nw.add_busses(b)
                n.nw.export(d)
                g = load_network(d)
                ctx.true(f"label[{label}]", set(spec(g)) ==
                         set(spec(n.nw)))
                nets.solve(g)
                nets.solve(n.nw)
                compare(ctx, f"label[{label}]", results(n.nw), results(g))
    return Harness("values", fn, sym=False, conc=1, bounded="these values",
                   time_s=120)


def shared_folder():
    """results and definition of a network with busses in one folder"""
    def fn(ctx):
        from tespy.networks import load_network
        for order in ("export first", "save first"):
            with nets.scratch() as d, nets.quiet():
                n = nets.build("rankine")
                nets.solve(n.nw)
                for f in ((n.nw.export, n.nw.save) if order == "export first"
                          else (n.nw.save, n.nw.export)):
                    f(d)
                try:
                    g = load_network(d)
                    ok = set(spec(g)) == set(spec(n.nw))
                    nets.solve(n.nw, "offdesign", design_path=d)
                    ok = ok and bool(n.nw.converged)
                except (KeyError, TypeError):
                    ok = False
                ctx.true(order, ok)
    return Harness("shared folder", fn, sym=False, conc=1,
                   bounded="this network")


def bus_label():
    """a component named like the entry for the bus value"""
    def fn(ctx):
        from tespy.networks import load_network
        with nets.scratch() as d, nets.quiet():
            n = nets.Net()
            n.add("Source", "so")
            n.add("Pump", "P", eta_s=0.8)
            n.add("Sink", "si")
            n.chain("so", "P", "si")
            b = n.N.Bus("b")
            b.add_comps({"comp": n.comp["P"]})
            n.nw.add_busses(b)
            n.nw.export(d)
            try:
                ok = set(spec(load_network(d))) == set(spec(n.nw))
            except KeyError:
                ok = False
            ctx.true("loads", ok)
    return Harness("component P on a bus", fn, sym=False, conc=1,
                   bounded="this network")


def harnesses(tier):
    out = [component(k) for k in classes()]
    out += [connections(), busses(), network(), histories(), values(),
            shared_folder(), bus_label()]
    out += [roundtrip(k) for k in nets.NETS]
    out += [designed(k) for k in nets.NETS]
    return out
