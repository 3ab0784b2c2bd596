"""C13: branches, reduction of the topology, and its undoing."""
import itertools

import numpy as np

from vc.runner import Harness

from . import nets
from .system import conn, network, table

FL = ("N2", "O2", "Ar")


class Wr:
    def __init__(self, fluid, back_end=None):
        self.fluid = fluid
        self.back_end = back_end


def branch(cs):
    return {"connections": list(cs), "components": [cs[0].source] + [
        c.target for c in cs]}


def err():
    from tespy.tools.helpers import TESPyNetworkError
    return TESPyNetworkError


FIELDS = ("val", "val0", "is_set", "unit", "design")


def massflow(n):
    """one mass flow per branch; specifications survive"""
    def fn(ctx):
        from tespy.connections import Ref
        nw = network(ctx)
        cs = [conn(f"c{k}") for k in range(n)]
        other = [conn("x"), conn("y")]
        nset = 0
        for c in cs + other:
            c.m.unit = "kg / s"
            c.m.val = ctx.real(f"{c.label}.val", typ=(0, 9))
            c.m.val0 = ctx.real(f"{c.label}.val0", typ=(0, 9))
            c.m.val_SI = ctx.real(f"{c.label}.SI", typ=(0, 9))
            c.m.is_set = False
        for c in cs:
            c.m.is_set = ctx.choice(f"{c.label}.set", [False, True])
            nset += c.m.is_set
        ref = ctx.choice("ref", [None, "outside", "inside"])
        if ref:
            cs[0].m_ref.ref = Ref(other[0] if ref == "outside" else cs[-1],
                                  1, 0)
            cs[0].m_ref.is_set = True
        nw.conns = table(cs + other)
        nw.massflow_branches = [branch(cs), branch(other)]
        own = {c.label: c.m for c in cs + other}
        before = {c.label: {k: getattr(c.m, k) for k in FIELDS + (
            "val_SI",)} for c in cs + other}
        given = [c for c in cs if c.m.is_set]
        try:
            nw.presolve_massflow_topology()
            ok = True
        except err():
            ok = False
        ctx.true("refused", ok == (nset <= 1 and not (
            ref == "inside" and n > 1)) or n == 1 and ref == "inside")
        if ok:
            ctx.true("one-mass-flow", len({id(c.m) for c in cs}) == 1)
            ctx.true("other-branch", other[0].m is other[1].m and
                     other[0].m is not cs[0].m)
            if given:
                ctx.true("specified", cs[0].m is own[given[0].label])
                ctx.true("still-set", cs[0].m.is_set)
            else:
                ctx.true("free", not cs[0].m.is_set)
            sol = {}
            for c in (cs[0], other[0]):
                if not c.m.is_set:
                    c.m.val_SI = ctx.real(f"{c.label}.solution",
                                          typ=(0, 9))
                sol[c.label] = c.m.val_SI
        nw.reset_topology_reduction_specifications()
        for c in cs + other:
            ctx.true("own-again", c.m is own[c.label])
            for k in FIELDS:
                a, b = getattr(c.m, k), before[c.label][k]
                ctx.true(f"kept:{k}", a is b or a == b)
            if ok:
                ctx.eq("solution", c.m.val_SI, sol[
                    cs[0].label if c in cs else other[0].label])
    return Harness(f"mass-flow-branch[{n}]", fn, repl=lambda: [], conc=20,
                   bounded="connections per branch")


def composition(n, fluids):
    """composition of a branch"""
    def fn(ctx):
        nw = network(ctx)
        nw.num_conn_vars = 0
        cs = [conn(f"c{k}") for k in range(n)]
        spec = {}
        twice = False
        vals = {}
        for c in cs:
            fl = c.fluid
            for f in fluids:
                kind = ctx.choice(f"{c.label}.{f}", ["free", "set"])
                x = ctx.real(f"{c.label}.x[{f}]", 0, 9, typ=(0, 0.8))
                fl.val[f] = x
                vals[c.label, f] = x
                fl.wrapper[f] = Wr(f)
                fl.engine[f] = Wr
                fl.back_end[f] = "BE" + f
                fl.val0[f] = 0.25
                if kind == "set":
                    fl.is_set.add(f)
                    twice = twice or f in spec
                    spec[f] = x
            c._potential_fluids = set(fluids)
        if spec and not twice:
            kind = ctx.choice("sum", ["exact", "below", "above"])
            tot = sum(spec.values())
            if kind == "exact":
                # close the sum with the last specified fluid
                f = list(spec)[-1]
                x = 1 - (tot - spec[f])
                ctx.assume(x >= 0)
                for c in cs:
                    if f in c.fluid.is_set:
                        c.fluid.val[f] = x
                        vals[c.label, f] = x
                spec[f] = x
            elif kind == "below":
                ctx.assume(tot < 1 - 1e-4)
            else:
                ctx.assume(tot > 1 + 1e-4)
        else:
            kind = None
        own = {c.label: c.fluid for c in cs}
        keep = {c.label: {k: (dict if isinstance(v, dict) else set)(v)
                          for k, v in vars(c.fluid).items()
                          if k in ("is_set", "engine", "back_end",
                                   "wrapper")} for c in cs}
        nw.conns = table(cs)
        nw.fluid_branches = {"b": [branch(cs[:1])] + (
            [branch(cs[1:])] if n > 1 else [])}
        try:
            nw.presolve_fluid_topology()
            ok = True
        except (err(), ValueError):
            ok = False
        ctx.true("refused", ok == (not twice and kind != "above"))
        if ok:
            fl = cs[0].fluid
            ctx.true("one-composition", len({id(c.fluid)
                                             for c in cs}) == 1)
            rest = [f for f in fluids if f not in spec]
            for f in spec:
                ctx.eq("specified", fl.val[f], spec[f])
                ctx.true("not-variable", f not in fl.is_var)
            if kind == "exact":
                ctx.true("closed", not fl.is_var)
                for f in rest:
                    ctx.eq("absent", fl.val[f], 0)
            elif len(rest) == 1:
                ctx.true("closed", not fl.is_var)
                ctx.eq("remainder", fl.val[rest[0]],
                       1 - sum(spec.values()) if spec else 1)
            else:
                ctx.true("variables", fl.is_var == set(rest))
            ctx.true("columns", sorted(fl.J_col[f] for f in fl.is_var) ==
                     list(range(nw.num_conn_vars)) == sorted(
                         nw.variables_dict))
            for j, e in nw.variables_dict.items():
                ctx.true("column", e["variable"] == "fluid" and
                         e["obj"].fluid is fl and
                         fl.J_col[e["fluid"]] == j)
            for c in cs:
                for f in fluids:
                    ctx.eq("fluid-data", c.fluid_data[f]["mass_fraction"],
                           fl.val[f])
            for f in fl.is_var:
                fl.val[f] = ctx.real(f"solution[{f}]", typ=(0, 1))
            sol = dict(fl.val)
        nw.reset_topology_reduction_specifications()
        ctx.true("own-again", len({id(c.fluid) for c in cs}) == n)
        ctx.true("own-values", len({id(c.fluid.val) for c in cs}) == n)
        for c in cs:
            for k, v in keep[c.label].items():
                ctx.true(f"kept:{k}", getattr(c.fluid, k) == v)
            if ok:
                for f in fluids:
                    ctx.eq("solution", c.fluid.val[f], sol[f])
            else:
                for f in c.fluid.is_set:
                    ctx.eq("specification", c.fluid.val[f],
                           vals[c.label, f])
    return Harness(f"composition-branch[{n}x{len(fluids)}]", fn,
                   repl=lambda: [], conc=30, max_paths=6000,
                   bounded="connections and fluids per branch")


# ----------------------------------------------------------- whole networks
def passes(cp, i):
    """outlets that carry the mass flow of inlet i unchanged"""
    t = type(cp).__name__
    if t in ("Merge", "Splitter", "Separator", "DropletSeparator", "Drum",
             "CombustionChamber", "DiabaticCombustionChamber",
             "CycleCloser", "Sink", "Source", "Node"):
        return None
    if t == "CombustionEngine" and i > 1:
        return None
    if t in ("FuelCell", "WaterElectrolyzer") and i > 0:
        return None
    return i


def keeps_fluid(cp):
    return type(cp).__name__ in ("Splitter", "DropletSeparator", "Drum")


class Sets:
    def __init__(self, xs):
        self.p = {x: x for x in xs}

    def find(self, x):
        while self.p[x] != x:
            x = self.p[x]
        return x

    def join(self, a, b):
        self.p[self.find(a)] = self.find(b)

    def parts(self):
        d = {}
        for x in self.p:
            d.setdefault(self.find(x), set()).add(x)
        return sorted(map(sorted, d.values()))


def oracle(nw):
    cs = list(nw.conns["object"])
    m, f, w = (Sets([c.label for c in cs]) for _ in range(3))
    for cp in nw.comps["object"]:
        il = [next(c for c in cs if c.target is cp and c.target_id == k)
              for k in cp.inlets()]
        ol = [next(c for c in cs if c.source is cp and c.source_id == k)
              for k in cp.outlets()]
        t = type(cp).__name__
        for i, a in enumerate(il):
            j = passes(cp, i)
            if j is not None:
                for s in (m, f, w):
                    s.join(a.label, ol[j].label)
            elif keeps_fluid(cp):
                for o in ol:
                    if t != "Drum" or i == 0:
                        f.join(a.label, o.label)
                    w.join(a.label, o.label)
            elif t in ("Merge", "Separator", "CombustionChamber",
                       "DiabaticCombustionChamber", "CycleCloser"):
                if t != "CycleCloser":
                    for o in ol:
                        w.join(a.label, o.label)
            elif t == "CombustionEngine":
                w.join(a.label, ol[2].label)
    return m, f, w


def closed_drum(nw, m):
    """circulation through a drum: feed equals steam"""
    for cp in nw.comps["object"]:
        if type(cp).__name__ == "Drum":
            k = {c.target_id: c.label for c in nw.conns["object"]
                 if c.target is cp}
            o = {c.source_id: c.label for c in nw.conns["object"]
                 if c.source is cp}
            if m.find(o["out1"]) == m.find(k["in2"]):
                m.join(k["in1"], o["out2"])


def parts(branches):
    return sorted(sorted(c.label for c in b["connections"])
                  for b in branches)


def grid(order):
    """four sources linked in a chain of merges and splitters"""
    n = nets.Net()
    for k in "ABCD":
        n.add("Source", k)
    n.add("Splitter", "sb")
    n.add("Splitter", "sd")
    for k in (1, 2, 3):
        n.add("Merge", f"m{k}")
        n.add("Sink", f"k{k}")
    L = {"a": ("A", "out1", "m1", "in1"), "b": ("B", "out1", "sb", "in1"),
         "c": ("C", "out1", "m2", "in1"), "d": ("D", "out1", "sd", "in1"),
         "b1": ("sb", "out1", "m1", "in2"),
         "b2": ("sb", "out2", "m3", "in1"),
         "d1": ("sd", "out1", "m2", "in2"),
         "d2": ("sd", "out2", "m3", "in2"),
         "o1": ("m1", "out1", "k1", "in1"),
         "o2": ("m2", "out1", "k2", "in1"),
         "o3": ("m3", "out1", "k3", "in1")}
    for k in ["abcd"[i] for i in order] + [x for x in L if len(x) > 1]:
        n.link(k, *L[k])
    for k, f in zip("abcd", ("N2", "N2", "O2", "O2")):
        n.conn[k].set_attr(fluid={f: 1}, m=1, T=100)
    n.conn["b"].set_attr(p=1)
    n.conn["b1"].set_attr(m=0.5)
    n.conn["d1"].set_attr(m=0.4)
    return nets.snapshot(n)


def open_drum():
    n = nets.Net()
    for k in ("feed", "back"):
        n.add("Source", k)
    n.add("Drum", "drum")
    for k in ("water", "steam"):
        n.add("Sink", k)
    n.link("1", "feed", "out1", "drum", "in1", fluid={"water": 1})
    n.link("2", "back", "out1", "drum", "in2", fluid={"water": 1})
    n.link("3", "drum", "out1", "water", "in1")
    n.link("4", "drum", "out2", "steam", "in1")
    return n


def engine():
    n = nets.Net()
    for k in ("air", "fuel", "w1", "w2"):
        n.add("Source", k)
    n.add("CombustionEngine", "engine")
    n.add("Valve", "valve")
    for k in ("k1", "k2", "k3"):
        n.add("Sink", k)
    n.link("w1", "w1", "out1", "engine", "in1", fluid={"water": 1})
    n.link("w2", "w2", "out1", "engine", "in2", fluid={"water": 1})
    n.link("air", "air", "out1", "engine", "in3", fluid={"O2": 1})
    n.link("fuel", "fuel", "out1", "engine", "in4", fluid={"CH4": 1})
    n.link("o1", "engine", "out1", "k1", "in1")
    n.link("o2", "engine", "out2", "k2", "in1")
    n.link("o3", "engine", "out3", "valve", "in1")
    n.link("o4", "valve", "out1", "k3", "in1")
    return n


def electrolysis():
    n = nets.Net()
    for k in ("cool", "water"):
        n.add("Source", k)
    n.add("WaterElectrolyzer", "el")
    n.add("Compressor", "comp")
    for k in ("k1", "k2", "k3"):
        n.add("Sink", k)
    n.link("1", "cool", "out1", "el", "in1", fluid={"water": 1})
    n.link("2", "water", "out1", "el", "in2")
    n.link("3", "el", "out1", "k1", "in1")
    n.link("4", "el", "out2", "k2", "in1")
    n.link("5", "el", "out3", "comp", "in1")
    n.link("6", "comp", "out1", "k3", "in1")
    return n


def separator():
    n = nets.Net()
    n.add("Source", "s")
    n.add("Valve", "v")
    n.add("Separator", "sep", num_out=3)
    n.add("Pipe", "p")
    for k in (1, 2, 3):
        n.add("Sink", f"k{k}")
    n.link("1", "s", "out1", "v", "in1", fluid={"N2": 0.5, "O2": 0.5})
    n.link("2", "v", "out1", "sep", "in1")
    n.link("3", "sep", "out1", "k1", "in1")
    n.link("4", "sep", "out2", "p", "in1")
    n.link("5", "p", "out1", "k2", "in1")
    n.link("6", "sep", "out3", "k3", "in1")
    return n


def droplet():
    n = nets.Net()
    n.add("Source", "s")
    n.add("DropletSeparator", "sep")
    n.add("Valve", "v")
    for k in (1, 2):
        n.add("Sink", f"k{k}")
    n.link("1", "s", "out1", "sep", "in1", fluid={"water": 1})
    n.link("2", "sep", "out1", "v", "in1")
    n.link("3", "sep", "out2", "k1", "in1")
    n.link("4", "v", "out1", "k2", "in1")
    return n


def subsystem():
    n = nets.Net()
    for k in (1, 2, 3):
        n.add("Source", f"s{k}")
        n.add("Sink", f"k{k}")
    n.add("SubsystemInterface", "i", num_inter=3)
    for k in (3, 1, 2):
        n.link(f"a{k}", f"s{k}", "out1", "i", f"in{k}",
               fluid={("water", "N2", "O2")[k - 1]: 1})
        n.link(f"b{k}", "i", f"out{k}", f"k{k}", "in1")
    return n


SHAPES = dict(nets.NETS)
SHAPES.update({"open drum": open_drum, "engine": engine,
               "electrolysis": electrolysis, "separator": separator,
               "droplet separator": droplet, "subsystem": subsystem})


def shape(name, make):
    def fn(ctx):
        n = make()
        nw = n.nw
        nw.check_network()
        m, f, w = oracle(nw)
        closed_drum(nw, m)
        closed_drum(nw, f)
        ctx.true("mass-flow-branches", parts(nw.massflow_branches) ==
                 m.parts())
        fb = sorted(sorted(c.label for b in bs for c in b["connections"])
                    for bs in nw.fluid_branches.values())
        ctx.true("composition-branches", fb == f.parts())
        wb = sorted(sorted(set(c.label for c in b["connections"]))
                    for b in nw.fluid_wrapper_branches.values())
        ctx.true("fluid-systems", wb == w.parts())
    return Harness(f"branches[{name}]", fn, sym=False, conc=1,
                   bounded="this topology")


def whole(name, make, judge=True):
    """aborted, repeated and changed calculations"""
    def fn(ctx):
        np.random.seed(7)
        n = make()
        nw = n.nw
        state = {lb: own(c) for lb, c in n.conn.items()}
        # an underdetermined calculation is refused ...
        first = next(c for c in n.conn.values() if c.T.is_set)
        T = first.T.val
        first.set_attr(T=None)
        for _ in range(2):
            try:
                nets.solve(nw)
                ok = True
            except err():
                ok = False
            ctx.true("refused", not ok)
            same(ctx, n, "after-abort", skip=[(first.label, "T")])
            ctx.true("unset", not first.T.is_set)
        # ... and can be completed; a calculation that is not finished
        # leaves the specifications alone
        first.set_attr(T=T)
        for i in (1, 3):
            nets.solve(nw, init_previous=False, max_iter=i, min_iter=1)
            same(ctx, n, "after-limit")
        nets.solve(nw)
        same(ctx, n, "after-solve")
        if judge:
            nets.judge(ctx, n)
        ref = values(n)
        for c in n.conn.values():
            ctx.true("own-containers", c.m is not None and len(
                {id(x.m) for x in n.conn.values()}) == len(n.conn) == len(
                {id(x.fluid.val) for x in n.conn.values()}))
        nets.solve(nw)
        ctx.true("again", bool(nw.converged))
        close(ctx, "repeat", values(n), ref)
        nets.solve(nw, init_only=True)
        same(ctx, n, "after-init")
        nets.solve(nw, init_previous=False, max_iter=2, min_iter=1)
        same(ctx, n, "after-limit again")
        nets.solve(nw, init_previous=False)
        close(ctx, "from-scratch", values(n), ref)
        same(ctx, n, "at-last")
    return Harness(f"history[{name}]", fn, sym=False, conc=1,
                   bounded="this network and history")


def own(c):
    return {k: c.get_attr(k).is_set for k in c.property_data}


def values(n):
    return {(lb, k): float(c.get_attr(k).val_SI)
            for lb, c in n.conn.items() for k in ("m", "p", "h")}


def close(ctx, tag, a, b):
    for k in b:
        ctx.eq(f"{tag}[{k[0]}.{k[1]}]", a[k], b[k], tol=1e-5,
               scale={"m": 1e-1, "p": 1e3, "h": 1e4}[k[1]])


def same(ctx, n, tag, skip=()):
    """the specifications are those of the user"""
    for lb, c in n.conn.items():
        want = {k: v for k, v in n.specs[lb].items()}
        for k in ("m", "p", "h", "T", "x", "v", "Td_bp"):
            if (lb, k) in skip:
                continue
            d = c.get_attr(k)
            ctx.true(f"{tag}:set[{lb}.{k}]", d.is_set == (k in want))
            if k in want:
                ctx.eq(f"{tag}:value[{lb}.{k}]", d.val, want[k], tol=1e-6,
                       scale=10)
        ctx.true(f"{tag}:fluids[{lb}]", set(c.fluid.is_set) ==
                 set(n.fluids[lb]))
        for f, x in n.fluids[lb].items():
            ctx.eq(f"{tag}:fluid[{lb}]", c.fluid.val[f], x, tol=1e-9)
    for lb, cp in n.comp.items():
        want = n.cspecs[lb]
        for k, d in cp.parameters.items():
            if k in nets.OPEN.get(type(cp).__name__, ()) and k not in want:
                # documented: becomes a variable of the system
                ctx.true(f"{tag}:variable[{lb}.{k}]",
                         d.is_set == d.is_var)
                continue
            if hasattr(d, "val") and type(d.val) in (int, float):
                ctx.true(f"{tag}:set[{lb}.{k}]", bool(d.is_set) ==
                         (k in want))
                if k in want:
                    ctx.eq(f"{tag}:value[{lb}.{k}]", d.val, want[k],
                           tol=1e-4)


def rebuilt():
    """a part of the network is replaced after solving: compositions of
    former neighbours are independent"""
    def fn(ctx):
        np.random.seed(3)
        n = nets.Net()
        for k in ("s", "s2"):
            n.add("Source", k)
        for k in ("v1", "v2"):
            n.add("Valve", k, pr=0.9)
        n.add("Merge", "m")
        n.add("Sink", "k")
        n.chain("s", "v1", "v2", "k")
        n.conn["1"].set_attr(fluid={"N2": 1}, m=2, p=5, T=100)
        nets.solve(n.nw)
        n.nw.del_conns(n.conn.pop("2"))
        n.link("2a", "v1", "out1", "m", "in1")
        n.link("2b", "s2", "out1", "m", "in2", fluid={"O2": 1}, m=1, T=80)
        n.link("2c", "m", "out1", "v2", "in1")
        nets.snapshot(n)
        nets.solve(n.nw)
        nets.judge(ctx, n)
        ctx.eq("inlet", n.conn["1"].fluid.val["N2"], 1, tol=1e-9)
        ctx.eq("mixed", n.conn["3"].fluid.val["O2"], 1 / 3, tol=1e-6)
        ctx.true("deleted", "2" not in n.nw.conns.index)
    return Harness("history[rebuilt]", fn, sym=False, conc=1,
                   bounded="this network and history")


def wiring():
    """ports are used once and all are connected"""
    def fn(ctx):
        def refused(f):
            try:
                f()
                return False
            except err():
                return True
        for drop in ("3", "1", "5"):
            n = nets.linear()
            c = n.conn[drop]
            n.nw.del_conns(c)
            ctx.true("missing-connection", refused(lambda: nets.solve(
                n.nw)))
            n.nw.add_conns(c)
            nets.solve(n.nw)
            ctx.true("complete", bool(n.nw.converged))
        n = nets.linear()
        n.link("extra", "pump", "out1", "sink", "in1")
        ctx.true("port-used-twice", refused(lambda: nets.solve(n.nw)))
        n = nets.linear()
        s = n.add("Source", "other")
        n.link("extra", "other", "out1", "pipe", "in1")
        ctx.true("inlet-used-twice", refused(lambda: nets.solve(n.nw)))
        n = nets.Net()
        ctx.true("empty", refused(lambda: nets.solve(n.nw)))
        n = nets.linear()
        n.comp["x"] = n.C.Pump("pump")
        n.add("Source", "o2")
        ctx.true("label-twice", refused(lambda: n.link(
            "z", "o2", "out1", "x", "in1")))
        n = nets.linear()
        for a, b, ca, cb in (("pump", "pump", "out1", "in1"),):
            try:
                n.N.Connection(n.comp[a], ca, n.comp[b], cb)
                ok = False
            except Exception:
                ok = True
            ctx.true("self-connection", ok)
        cp = n.comp
        for tag, exc, args, kw in (
                ("unknown-outlet", ValueError,
                 (cp["pump"], "out2", cp["pipe"], "in1"), {}),
                ("unknown-inlet", ValueError,
                 (cp["pump"], "out1", cp["pipe"], "in2"), {}),
                ("outlet-as-inlet", ValueError,
                 (cp["pump"], "out1", cp["pipe"], "out1"), {}),
                ("inlet-as-outlet", ValueError,
                 (cp["pump"], "in1", cp["pipe"], "in1"), {}),
                ("no-source", TypeError,
                 ("pump", "out1", cp["pipe"], "in1"), {}),
                ("no-target", TypeError,
                 (cp["pump"], "out1", n.nw, "in1"), {}),
                ("label-type", TypeError,
                 (cp["pump"], "out1", cp["pipe"], "in1"), {"label": 7})):
            ctx.true(tag, raised(lambda: n.N.Connection(*args, **kw), exc))
        c = n.N.Connection(cp["pump"], "out1", cp["pipe"], "in1")
        ctx.true("ends", (c.source, c.source_id, c.target, c.target_id) ==
                 (cp["pump"], "out1", cp["pipe"], "in1"))
        d = n.N.Connection(cp["source"], "out1", cp["pipe"], "in1")
        ctx.true("labels-differ", isinstance(c.label, str) and
                 c.label != d.label)
        try:
            n.nw.add_conns(n.conn["1"])
            ok = False
        except ValueError:
            ok = True
        ctx.true("connection-twice", ok)
        for kw in ({"m": 3, "lab": "2"}, {"m": 3, "lab": "5"}):
            n = nets.linear()
            n.conn[kw["lab"]].set_attr(m=3)
            ctx.true("mass-flow-twice", refused(lambda: nets.solve(n.nw)))
        n = nets.linear()
        n.conn["3"].set_attr(h=300)
        ctx.true("overdetermined", refused(lambda: nets.solve(n.nw)))
    return Harness("wiring", fn, sym=False, conc=1,
                   bounded="listed mistakes")


def extending():
    """connections added to a solved network take part in the next
    calculation"""
    def fn(ctx):
        np.random.seed(4)
        n = nets.build("linear")
        nets.solve(n.nw)
        ref = values(n)
        n.add("Source", "s2")
        n.add("Valve", "v2", pr=0.5)
        n.add("Sink", "k2")
        n.link("x1", "s2", "out1", "v2", "in1", fluid={"R134a": 1}, m=2,
               T=40, x=1)
        ctx.true("incomplete", raised(lambda: nets.solve(n.nw), err()))
        ctx.true("type", raised(lambda: n.nw.add_conns(n.comp["v2"]),
                                TypeError))
        n.link("x2", "v2", "out1", "k2", "in1")
        nets.snapshot(n)
        nets.solve(n.nw)
        nets.judge(ctx, n)
        new = values(n)
        close(ctx, "kept", {k: new[k] for k in ref}, ref)
        ctx.eq("throttled", n.conn["x2"].p.val_SI,
               n.conn["x1"].p.val_SI / 2, tol=1e-6)
        ctx.true("reported", "x2" in n.nw.results["Connection"].index and
                 "v2" in n.nw.results["Valve"].index)
        # a closed and an open part
        n.add("CycleCloser", "cc")
        n.add("Pump", "p3", eta_s=0.7)
        n.add("SimpleHeatExchanger", "h3")
        n.add("Valve", "v3")
        n.chain("cc", "p3", "h3", "v3", "cc", prefix="y")
        n.conn["y1"].set_attr(fluid={"water": 1}, m=1, p=2, T=50)
        n.conn["y2"].set_attr(p=6)
        n.conn["y3"].set_attr(p=5)
        nets.snapshot(n)
        nets.solve(n.nw)
        nets.judge(ctx, n)
        new = values(n)
        close(ctx, "kept again", {k: new[k] for k in ref}, ref)
        n.nw.del_conns(*[n.conn.pop(k) for k in ("x1", "x2")])
        nets.solve(n.nw)
        new2 = values(n)
        close(ctx, "without", new2, {k: new[k] for k in new2})
    return Harness("history[extended]", fn, sym=False, conc=1,
                   bounded="this network and history")


def repeated(fluid):
    """repeating a calculation changes nothing, also if the back end's
    functions are not exactly the inverse of each other"""
    def fn(ctx):
        np.random.seed(6)
        n = nets.build("linear")
        n.conn["1"].set_attr(fluid={fluid: 1})
        n.conn["1"].set_attr(m=None, v=0.003)
        nets.snapshot(n)
        n.fluids["1"] = {"water": 1}
        for i in range(4):
            nets.solve(n.nw)
            ctx.true("converged", bool(n.nw.converged))
            same(ctx, n, f"repeat{i}")
            if not i:
                ref = values(n)
            close(ctx, f"state{i}", values(n), ref)
    return Harness(f"history[repeated {fluid}]", fn, sym=False, conc=1,
                   bounded="this network, four calculations")


def unfinished():
    """the specified power of a bus survives a calculation that ends at the
    iteration limit, and is met by the next one"""
    def fn(ctx):
        np.random.seed(8)
        n = nets.build("rankine")
        n.conn["1"].set_attr(m=None, m0=20)
        n.bus.set_attr(P=-1e7)
        for k in (1, 2, 50):
            nets.solve(n.nw, init_previous=False, max_iter=k, min_iter=1)
            ctx.true(f"set[{k}]", bool(n.bus.P.is_set))
            ctx.eq(f"P[{k}]", n.bus.P.val, -1e7, tol=1e-6)
        ctx.true("converged", bool(n.nw.converged))
        ctx.eq("met", sum(n.nw.results["power"]["bus value"]), -1e7,
               tol=1e-6)
        n.bus.set_attr(P=None)
        n.conn["1"].set_attr(m=10)
        nets.solve(n.nw)
        ctx.eq("result", n.bus.P.val,
               sum(n.nw.results["power"]["bus value"]), tol=1e-9)
        ctx.true("other", abs(n.bus.P.val + 1e7) > 1e5)
    return Harness("history[unfinished bus]", fn, sym=False, conc=1,
                   bounded="this network and history")


def ruled():
    """the mixing rule of a branch is the one specified at one of its
    connections, also if changed after a calculation; two different ones
    are refused"""
    def fn(ctx):
        np.random.seed(5)
        n = nets.build("mixing")
        nets.solve(n.nw)
        ctx.true("default", {c.mixing_rule for c in n.conn.values()} ==
                 {"ideal-cond"})
        for at, rule in (("1", "ideal"), ("1", "incompressible"),
                         ("1", "ideal"), ("1", "ideal-cond")):
            n.conn[at].set_attr(mixing_rule=rule)
            nets.solve(n.nw)
            ctx.true(f"changed[{rule}]", {c.mixing_rule for c in
                     n.conn.values()} == {rule})
            new = nets.build("mixing")
            new.conn["3"].set_attr(mixing_rule=rule)
            nets.solve(new.nw)
            ctx.true(f"given[{rule}]", {c.mixing_rule for c in
                     new.conn.values()} == {rule})
            close(ctx, f"fresh[{rule}]", values(n), values(new))
        new = nets.build("mixing")
        new.conn["1"].set_attr(mixing_rule="ideal")
        new.conn["4"].set_attr(mixing_rule="incompressible")
        ctx.true("two rules", raised(lambda: nets.solve(new.nw), err()))
        new.conn["4"].set_attr(mixing_rule="ideal")
        nets.solve(new.nw)
        ctx.true("agreed", {c.mixing_rule for c in new.conn.values()} ==
                 {"ideal"})
        new.conn["4"].set_attr(mixing_rule="incompressible")
        ctx.true("two rules again", raised(lambda: nets.solve(new.nw),
                                           err()))
        new.conn["1"].set_attr(mixing_rule="incompressible")
        nets.solve(new.nw)
        ctx.true("agreed again", {c.mixing_rule for c in
                 new.conn.values()} == {"incompressible"})
    return Harness("history[mixing rule]", fn, sym=False, conc=1,
                   bounded="this network and history")


def deleting():
    """components disappear with their last connection, only then"""
    def fn(ctx):
        for solved in (False, True):
            n = nets.linear()
            if solved:
                nets.solve(n.nw)
            n.nw.del_conns(n.conn["3"])
            ctx.true("kept", {"pipe", "heater"} <= set(n.nw.comps.index))
            n.nw.del_conns(n.conn["4"])
            ctx.true("heater-gone", "heater" not in n.nw.comps.index)
            ctx.true("valve-kept", "valve" in n.nw.comps.index)
            ctx.true("connections", set(n.nw.conns.index) ==
                     {"1", "2", "5"})
            if solved:
                # what is gone has no results any more
                for k, t in n.nw.results.items():
                    ctx.true(f"results[{k}]", not {"heater", "3", "4"} &
                             set(t.index))
                ctx.true("others", {"pump", "valve"} <= set(
                    lb for t in n.nw.results.values() for lb in t.index))
    return Harness("deleting", fn, sym=False, conc=1,
                   bounded="this network")


def raised(f, *kinds):
    try:
        f()
    except kinds:
        return True
    return False


def busses():
    """a bus takes part in the calculation while, and only while, it is in
    the network"""
    def fn(ctx):
        np.random.seed(11)
        n = nets.build("rankine")
        nw, bus = n.nw, n.bus
        nets.solve(nw)
        ref = values(n)
        P = float(bus.P.val)
        c = n.conn["1"]
        ctx.true("negative", P < 0)
        for again in range(2):
            # the bus value replaces the mass flow
            c.set_attr(m=None)
            ctx.true("underdetermined", raised(lambda: nets.solve(nw),
                                               err()))
            bus.set_attr(P=P)
            nets.solve(nw)
            ctx.true("converged", bool(nw.converged))
            close(ctx, "bus", values(n), ref)
            ctx.eq("value", float(bus.P.val), P, tol=1e-6)
            # twice the power, twice the mass flow
            bus.set_attr(P=2 * P)
            nets.solve(nw)
            ctx.eq("doubled", c.m.val_SI, 2 * ref["1", "m"], tol=1e-5)
            bus.set_attr(P=P)
            # without the bus its equation is gone as well
            nw.del_busses(bus)
            ctx.true("deleted", bus.label not in nw.busses and
                     bus.label not in nw.results)
            ctx.true("equation-gone", raised(lambda: nets.solve(nw),
                                             err()))
            c.set_attr(m=ref["1", "m"])
            nets.solve(nw)
            close(ctx, "without", values(n), ref)
            ctx.true("no-result", bus.label not in nw.results)
            nw.add_busses(bus)
            ctx.true("overdetermined", raised(lambda: nets.solve(nw),
                                              err()))
            bus.set_attr(P=None)
            nets.solve(nw)
            close(ctx, "back", values(n), ref)
            ctx.eq("value", float(bus.P.val), P, tol=1e-6)
            ctx.true("result", set(nw.results[bus.label].index) ==
                     {"turbine", "pump"})
        ctx.true("twice", raised(lambda: nw.add_busses(bus), err()))
        other = n.N.Bus(bus.label)
        ctx.true("same-label", raised(lambda: nw.add_busses(other), err()))
        ctx.true("type", raised(lambda: nw.add_busses(c), TypeError))
        ctx.true("unchanged", list(nw.busses.values()) == [bus])
        # the value of an empty bus and of a second bus
        second = n.N.Bus("second", P=5e6)
        ctx.true("given", second.P.is_set and second.P.val == 5e6)
        second.add_comps({"comp": n.comp["boiler"], "base": "bus"},
                         {"comp": n.comp["turbine"], "char": 0.9})
        nw.add_busses(second)
        c.set_attr(m=None)
        nets.solve(nw)
        parts = [n.comp["boiler"].Q.val, n.comp["turbine"].P.val * 0.9]
        ctx.eq("second", sum(parts), 5e6, tol=1e-5)
        ctx.eq("first", float(bus.P.val), n.comp["turbine"].P.val * 0.97 +
               n.comp["pump"].P.val / 0.95, tol=1e-6)
    return Harness("administration[busses]", fn, sym=False, conc=1,
                   bounded="this network and history")


def equations():
    """user defined equations hold while, and only while, they are in the
    network, with analytical and with numerical derivatives"""
    def fn(ctx):
        from tespy.tools.helpers import UserDefinedEquation as U
        np.random.seed(12)
        n = nets.build("linear")
        nw, c = n.nw, n.conn
        nets.solve(nw)
        ref = values(n)

        def ratio(ude):
            a, b = ude.conns
            return b.p.val_SI - ude.params["r"] * a.p.val_SI

        def ratio_deriv(ude):
            a, b = ude.conns
            if a.p.is_var:
                ude.jacobian[a.p.J_col] = -ude.params["r"]
            if b.p.is_var:
                ude.jacobian[b.p.J_col] = 1

        def power(ude):
            # cubic in the mass flow, and in terms of enthalpies
            a, b = ude.conns
            return (a.m.val_SI ** 3 * (b.h.val_SI - a.h.val_SI) * 1e-6 -
                    ude.params["P"])

        def numeric(ude):
            for k in "mph":
                for x in ude.conns if k != "m" else ude.conns[:1]:
                    d = x.get_attr(k)
                    if d.is_var:
                        ude.jacobian[d.J_col] = ude.numeric_deriv(k, x)
        target = ref["1", "m"] ** 3 * (ref["4", "h"] - ref["3", "h"]) * 1e-6
        u1 = U("ratio", ratio, ratio_deriv, [c["1"], c["2"]],
               params={"r": 12.0})
        u2 = U("ratio numeric", ratio, numeric, [c["1"], c["2"]],
               params={"r": 12.0})
        u3 = U("power", power, numeric, [c["3"], c["4"]],
               params={"P": target})
        for eqs, drop in (([u1], [("2", "p")]), ([u2], [("2", "p")]),
                          ([u3], [("1", "m")]),
                          ([u1, u3], [("2", "p"), ("1", "m")]),
                          ([u3, u2], [("2", "p"), ("1", "m")])):
            old = {}
            for lb, k in drop:
                old[lb, k] = c[lb].get_attr(k).val
                c[lb].set_attr(**{k: None})
            ctx.true("underdetermined", raised(lambda: nets.solve(nw),
                                               err()))
            nw.add_ude(*eqs)
            for e in eqs:
                ctx.true("twice", raised(lambda: nw.add_ude(e), ValueError))
            nets.solve(nw)
            ctx.true("converged", bool(nw.converged))
            close(ctx, "equation", values(n), ref)
            for e in eqs:
                if "r" in e.params:
                    e.params["r"] = 10.0
            nets.solve(nw)
            if any("r" in e.params for e in eqs):
                ctx.eq("changed", c["2"].p.val_SI, 10 * c["1"].p.val_SI,
                       tol=1e-6)
            if u3 in eqs:
                ctx.eq("cubic", power(u3), 0, tol=1e-5, scale=target)
            for e in eqs:
                if "r" in e.params:
                    e.params["r"] = 12.0
            nw.del_ude(*eqs)
            ctx.true("gone", not nw.user_defined_eq)
            ctx.true("refused-without", raised(lambda: nets.solve(nw),
                                               err()))
            for (lb, k), v in old.items():
                c[lb].set_attr(**{k: v})
            nets.solve(nw)
            close(ctx, "back", values(n), ref)
        nw.add_ude(u1)
        ctx.true("overdetermined", raised(lambda: nets.solve(nw), err()))
        other = U("ratio", ratio, ratio_deriv, [c["1"], c["2"]])
        ctx.true("same-label", raised(lambda: nw.add_ude(other),
                                      ValueError))
        ctx.true("type", raised(lambda: nw.add_ude(c["1"]), TypeError))
        ctx.true("kept", nw.user_defined_eq == {"ratio": u1})
        for bad in (dict(label=7), dict(conns=c["1"]), dict(params=[1]),
                    dict(latex=[1])):
            k = dict(label="x", func=ratio, deriv=numeric, conns=[])
            k.update(bad)
            ctx.true("malformed", raised(lambda: U(**k), TypeError))
    return Harness("administration[user equations]", fn, sym=False, conc=1,
                   bounded="this network and history")


def grouped():
    """a part of the network kept in a subsystem is the same network"""
    def fn(ctx):
        from tespy.components import Subsystem, SubsystemInterface, Pump
        from tespy.components import Pipe
        from tespy.connections import Connection

        class Part(Subsystem):
            def create_comps(self):
                self.comps["in"] = SubsystemInterface(self.label + "_i",
                                                      num_inter=1)
                self.comps["out"] = SubsystemInterface(self.label + "_o",
                                                       num_inter=1)
                self.comps["pump"] = Pump(self.label + "_pump", eta_s=0.8)
                self.comps["pipe"] = Pipe(self.label + "_pipe", pr=0.95,
                                          Q=-2e4)

            def create_conns(self):
                order = ["in", "pump", "pipe", "out"]
                for a, b in zip(order, order[1:]):
                    self.conns[a] = Connection(
                        self.comps[a], "out1", self.comps[b], "in1",
                        label=f"{self.label}_{a}")
        np.random.seed(13)
        n = nets.build("linear")
        nets.solve(n.nw)
        ref = values(n)
        g = nets.Net()
        part = Part("part")
        for k in ("in", "out"):
            g.comp[k] = part.comps[k]
        g.add("Source", "source")
        g.add("SimpleHeatExchanger", "heater", pr=0.98)
        g.add("Valve", "valve")
        g.add("Sink", "sink")
        g.link("1", "source", "out1", "in", "in1", fluid={"water": 1}, m=3,
               p=1, T=30)
        g.nw.add_subsys(part)
        g.link("3", "out", "out1", "heater", "in1")
        g.link("4", "heater", "out1", "valve", "in1", T=120)
        g.link("5", "valve", "out1", "sink", "in1", p=5)
        part.conns["pump"].set_attr(p=12)
        ctx.true("members", set(g.nw.conns.index) ==
                 {"1", "3", "4", "5", "part_in", "part_pump", "part_pipe"})
        nets.solve(g.nw)
        ctx.true("converged", bool(g.nw.converged))
        g.conn["2"] = part.conns["pump"]
        close(ctx, "same", values(g), ref)
        for a, b in (("part_in", "1"), ("part_pipe", "3")):
            x = g.nw.get_conn(a)
            for k in "mph":
                ctx.eq(f"interface[{a}.{k}]", x.get_attr(k).val_SI,
                       ref[b, k], tol=1e-5, scale=1e3)
        ctx.true("attribute", part.get_attr("comps") is part.comps)
        ctx.true("unknown", raised(lambda: part.get_attr("foo"), KeyError))
        ctx.true("twice", raised(lambda: g.nw.add_subsys(part), ValueError))
        for bad in (7, "a;b", "a, b", "a.b"):
            ctx.true("label", raised(lambda: Part(bad), ValueError))
        for f, lb in (("get_comp", "valve"), ("get_conn", "4")):
            ctx.true("found", getattr(g.nw, f)(lb).label == lb)
            with nets.quiet():
                ctx.true("not-found", getattr(g.nw, f)("zz") is None)
    return Harness("administration[subsystem]", fn, sym=False, conc=1,
                   bounded="this network")


def harnesses(tier):
    out = [massflow(n) for n in (1, 2, 3)]
    out += [composition(n, FL[:k]) for n, k in ((1, 1), (1, 2), (1, 3),
                                                (2, 2), (2, 3))]
    out += [shape(k, f) for k, f in SHAPES.items()]
    for o in itertools.permutations(range(4)):
        out.append(shape("grid " + "".join(map(str, o)),
                         lambda o=o: grid(o)))
    out += [whole(k, lambda k=k: nets.build(k)) for k in nets.NETS]
    out += [whole("grid", lambda: grid((0, 1, 2, 3))), rebuilt(), extending(),
            repeated("IF97::water"), repeated("water"), ruled(), unfinished(), wiring(),
                        deleting(), busses(), equations(), grouped()]
    return out
