"""C19: result tables, printed results and diagram data show the solution."""
import contextlib
import io
import math
import random
import re

import numpy as np
import pandas as pd

from vc.bench import Bench
from vc.engine import is_sym
from vc.runner import Harness

from . import nets

PROPS = ("m", "p", "h", "T", "v", "vol", "s", "x", "Td_bp")


# ------------------------------------------------------------ plotting data
# component: (property of the isoline, property of start and end)
LINES = {"Turbine": "sv", "Pump": "sv", "Compressor": "sv", "Valve": "hv",
         "SimpleHeatExchanger": "ps", "Pipe": "ps", "SolarCollector": "ps",
         "ParabolicTrough": "ps", "HeatExchanger": "pv", "Condenser": "pv",
         "Desuperheater": "pv", "Merge": "pv", "Drum": "pv",
         "DropletSeparator": "pv", "SteamTurbine": "sv",
         "MovingBoundaryHeatExchanger": "pv"}
NONE = ("Source", "Sink", "CycleCloser", "Splitter", "Separator",
        "SubsystemInterface", "CombustionChamber", "FuelCell")


def ways(kind, b):
    """key: (inlet, outlet) of each change of state"""
    i, o = b.inl, b.outl
    if kind in ("HeatExchanger", "Condenser", "Desuperheater",
                "MovingBoundaryHeatExchanger"):
        return {1: (i[0], o[0]), 2: (i[1], o[1])}
    if kind == "Merge":
        return {k + 1: (c, o[0]) for k, c in enumerate(i)}
    if kind == "DropletSeparator":
        return {1: (i[0], o[0]), 2: (i[0], o[1])}
    if kind == "Drum":
        return {1: (o[0], o[1]), 2: (i[0], o[0]), 3: (i[0], o[1]),
                4: (i[1], o[0]), 5: (i[1], o[1])}
    return {1: (i[0], o[0])}


def plotting(kind, kw=None, tag=""):
    """each change of state runs from its inlet to its outlet"""
    def fn(ctx):
        b = Bench(ctx, kind, kw=kw)
        for c in b.inl + b.outl:
            for k in PROPS:
                d = c.get_attr(k)
                d.val = ctx.real(f"{c.label}.{k}.val", typ=(1, 9))
        with nets.quiet():
            got = b.comp.get_plotting_data()
        want = ways(kind, b)
        iso, end = LINES[kind]
        ctx.true("keys", set(got) == set(want))
        at = {"v": "vol"}
        for k, (x, y) in want.items():
            g = got[k]
            ctx.true(f"{k}:isoline", g["isoline_property"] == iso)
            ctx.true(f"{k}:start", g["starting_point_property"] == end)
            ctx.true(f"{k}:end", g["ending_point_property"] == end)
            for name, c, q in (
                    ("isoline_value", x, iso), ("isoline_value_end", y, iso),
                    ("starting_point_value", x, end),
                    ("ending_point_value", y, end)):
                ctx.eq(f"{k}:{name}", g[name],
                       c.get_attr(at.get(q, q)).val)
            ctx.true(f"{k}:nothing else", set(g) == {
                "isoline_property", "isoline_value", "isoline_value_end",
                "starting_point_property", "starting_point_value",
                "ending_point_property", "ending_point_value"})
    return Harness(f"plotting[{kind}{tag}]", fn, repl=lambda: [])


def no_plotting():
    def fn(ctx):
        import tespy.components as C
        for k in NONE:
            ctx.true(k, getattr(C, k)("x").get_plotting_data() is None)
    return Harness("plotting[none]", fn, sym=False, conc=1,
                   bounded="the listed components")


# ------------------------------------------------------------ result tables
def component_table(kind):
    """every parameter with a result is listed with its value, the others
    are blank"""
    def fn(ctx):
        from tespy.networks import Network
        from tespy.tools.data_containers import ComponentProperties as CP
        nw = Network(iterinfo=False)
        nw.converged = True
        objs = []
        for i in (1, 2):
            b = Bench(ctx, kind)
            b.comp.label = f"c{i}"
            objs.append(b.comp)
        pars = [k for k, d in objs[0].parameters.items()
                if isinstance(d, CP)]
        new = {}
        for i, cp in enumerate(objs):
            some = pars[i::2]
            for k in some:
                d = cp.get_attr(k)
                d.is_set = True
                d.val = ctx.real(f"spec{i}.{k}", typ=(0.2, 0.9))

            def results(cp=cp, i=i):
                for k in pars:
                    cp.get_attr(k).val = new[cp.label, k]
            for k in pars:
                new[cp.label, k] = ctx.real(f"result{i}.{k}", typ=(0.2, 0.9))
            cp.calc_parameters = results
            cp.check_parameter_bounds = lambda: True
        nw.comps = pd.DataFrame({"object": objs, "comp_type": kind},
                                index=[c.label for c in objs])
        nw.results[kind] = pd.DataFrame(
            columns=pars, dtype=object if ctx.mode == "sym" else float)
        nw.process_components()
        t = nw.results[kind]
        ctx.true("rows", list(t.index) == ["c1", "c2"])
        ctx.true("columns", list(t.columns) == pars)
        for cp in objs:
            for k in pars:
                d = cp.get_attr(k)
                v = t.loc[cp.label, k]
                blank = not is_sym(v) and v != v
                ctx.true(f"blank[{k}]", blank == (
                    d.func is None and not d.is_set and not d.is_result))
                if not blank:
                    ctx.eq(f"value[{k}]", v, new[cp.label, k])
    return Harness(f"table[{kind}]", fn, repl=lambda: [])


def connection_table(fluids):
    """every connection is listed with its own values, units and
    composition"""
    def fn(ctx):
        from tespy.components import Sink, Source
        from tespy.connections import Connection
        from tespy.networks import Network
        from tespy.tools.global_vars import fluid_property_data as fpd
        nw = Network(iterinfo=False)
        nw.converged = True
        cs = []
        vals = {}
        for i in range(3):
            c = Connection(Source(f"a{i}"), "out1", Sink(f"b{i}"), "in1",
                           label=f"c{i}")
            own = fluids[i:] or fluids
            for f in own:
                c.fluid.val[f] = vals[i, f] = ctx.real(f"x{i}.{f}",
                                                       typ=(0, 1))

            def results(c=c, i=i):
                for k in PROPS:
                    d = c.get_attr(k)
                    d.val = vals[i, k] = ctx.real(f"{k}{i}", typ=(1, 9))
                    d.unit = f"unit of {k}{i}"
                c.phase.val = vals[i, "phase"] = f"phase{i}"
            c.calc_results = results
            cs.append(c)
        nw.conns = pd.DataFrame({"object": cs}, index=[c.label for c in cs])
        nw.all_fluids = set(fluids)
        cols = [x for k in fpd for x in (k, f"{k}_unit")] + list(
            nw.all_fluids) + ["phase"]
        nw.results["Connection"] = pd.DataFrame(columns=cols, dtype=object)
        nw.process_connections()
        t = nw.results["Connection"]
        ctx.true("rows", list(t.index) == [c.label for c in cs])
        for i, c in enumerate(cs):
            for k in PROPS:
                ctx.eq(f"{k}{i}", t.loc[c.label, k], vals[i, k])
                ctx.true(f"{k}{i} unit", t.loc[c.label, f"{k}_unit"] ==
                         f"unit of {k}{i}")
            for f in fluids:
                v = t.loc[c.label, f]
                if (i, f) in vals:
                    ctx.eq(f"{f}{i}", v, vals[i, f])
                else:
                    ctx.true(f"no {f}{i}", not is_sym(v) and v != v)
            ctx.true(f"phase{i}", t.loc[c.label, "phase"] == f"phase{i}")
            ctx.true(f"good{i}", c.good_starting_values)
    return Harness(f"table[Connection,{len(fluids)}]", fn, repl=lambda: [],
                   bounded="three connections")


# ------------------------------------------------------------------ printing
CODE = re.compile(r"\x1b\[\d+m|<\w+>")


def tables(text):
    """title: (columns, {row: cells})"""
    out = {}
    title = None
    for line in text.splitlines():
        m = re.match(r"#{5} RESULTS:? ?(.*?):? ?#{5}", line)
        if m:
            title = m.group(1).strip()
            out[title] = [None, {}]
        elif line.startswith("|") and title and not set(line) <= set("|-+"):
            cells = [x.strip() for x in line.strip("|").split("|")]
            if out[title][0] is None:
                out[title][0] = cells
            else:
                out[title][1][cells[0]] = cells
    return out


def number(cell):
    try:
        return float(CODE.sub("", cell))
    except ValueError:
        return None


def shows(ctx, name, cell, val, tol=6e-3):
    got = number(cell)
    if val is None or (isinstance(val, float) and math.isnan(val)):
        ctx.true(name + ":blank", cell == "" or got is None or got != got)
    else:
        ctx.true(name + ":number", got is not None and got == got)
        if got is not None and got == got:
            ctx.eq(name, got, float(val), tol=tol, scale=abs(float(val)))


COLORS = {"end": "<end>", "set": "<set>", "err": "<err>", "var": "<var>"}


def printed(nw, **k):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        nw.print_results(**k)
    return f.getvalue()


def mark(d, val):
    from tespy.tools.global_vars import ERR
    if val < d.min_val - ERR or val > d.max_val + ERR:
        return "err"
    if d.is_var:
        return "var"
    return "set" if d.is_set else ""


def printing(name):
    """the tables hold what has printout switched on, with its values;
    specified, variable and invalid values are marked"""
    def fn(ctx):
        np.random.seed(11)
        n = nets.build(name)
        nw = n.nw
        nets.solve(nw)
        rng = random.Random(name)
        for hide in (0, 1, 2):
            for o in list(n.conn.values()) + list(n.comp.values()):
                on = hide == 0 or (hide == 1 and rng.random() < 0.6)
                o.set_attr(printout=on)
            for i, bus in enumerate(nw.busses.values()):
                bus.set_attr(printout=hide == 0 or i + hide == 1)
            before = {k: t.copy() for k, t in nw.results.items()}
            for colored in (True, False):
                one_print(ctx, n, tables(printed(
                    nw, colored=colored, colors=COLORS)), colored)
            plain = printed(nw)
            ctx.true("again", plain == printed(nw))
            ctx.true("silent", printed(nw, print_results=False) == "")
            for k, t in before.items():
                ctx.true(f"kept[{k}]", t.equals(nw.results[k]))
        # values specified for the next calculation are not results
        for c in n.conn.values():
            c.set_attr(printout=True)
            for k in ("m", "p", "T"):
                d = c.get_attr(k)
                if d.is_set:
                    c.set_attr(**{k: d.val * 1.5 + 1})
        for cp in n.comp.values():
            if "eta_s" in cp.parameters and cp.eta_s.is_set:
                cp.set_attr(eta_s=cp.eta_s.val / 2)
        for colored in (True, False):
            one_print(ctx, n, tables(printed(nw, colored=colored,
                                             colors=COLORS)), colored)
    return Harness(f"printing[{name}]", fn, sym=False, conc=1,
                   bounded="this network, three choices of what to print")


def one_print(ctx, n, got, colored):
    nw = n.nw
    kinds = {}
    for lb, cp in n.comp.items():
        kinds.setdefault(type(cp).__name__, []).append(cp)
    for kind, cps in kinds.items():
        t = nw.results[kind]
        on = [c for c in cps if c.printout]
        key = f"({kind})"
        if not on or not len(t.columns):
            ctx.true(f"absent[{kind}]", key not in got)
            continue
        cols, rows = got.get(key, (None, {}))
        ctx.true(f"rows[{kind}]", set(rows) == {c.label for c in on})
        ctx.true(f"columns[{kind}]", (cols or [])[1:] == list(t.columns))
        for cp in on:
            cells = rows.get(cp.label)
            if cells is None:
                continue
            for k, cell in zip(t.columns, cells[1:]):
                d = cp.get_attr(k)
                v = t.loc[cp.label, k]
                shows(ctx, f"{cp.label}.{k}", cell, v)
                m = re.match(r"<(\w+)>", cell)
                m = m.group(1) if m else ""
                if not colored:
                    ctx.true(f"plain[{cp.label}.{k}]", not m)
                elif v == v:
                    ctx.true(f"mark[{cp.label}.{k}]", m == mark(d, v))
    cols, rows = got.get("(Connection)", ([], {}))
    on = [c for c in n.conn.values() if c.printout]
    ctx.true("connections", set(rows) == {c.label for c in on})
    if on:
        ctx.true("properties", cols[1:] == ["m", "p", "h", "T", "x",
                                            "phase"])
    for c in on:
        cells = rows.get(c.label)
        if cells is None:
            continue
        for k, cell in zip(cols[1:], cells[1:]):
            d = c.get_attr(k)
            v = nw.results["Connection"].loc[c.label, k]
            if k == "phase":
                ctx.true(f"{c.label}.phase", CODE.sub("", cell) == str(v))
                continue
            shows(ctx, f"{c.label}.{k}", cell, v, tol=1e-3)
            ctx.true(f"mark[{c.label}.{k}]", ("<set>" in cell) ==
                     (colored and bool(d.is_set)))
    for b in nw.busses.values():
        key = f"(Bus: {b.label})"
        ctx.true(f"bus[{b.label}]", (key in got) == bool(b.printout))
        if key not in got:
            continue
        cols, rows = got[key]
        t = nw.results[b.label]
        ctx.true("bus rows", set(rows) == set(t.index) | {"total"})
        for lb, cells in rows.items():
            cell = dict(zip(cols, cells))
            for k in ("component value", "bus value", "efficiency"):
                v = t[k].sum() if lb == "total" else t.loc[lb, k]
                if (lb, k) == ("total", "efficiency"):
                    v = float("nan")
                shows(ctx, f"{b.label}.{lb}.{k}", cell[k], v, tol=1e-3)
            ctx.true("bus mark", ("<set>" in cells[cols.index("bus value")])
                     == (colored and lb == "total" and bool(b.P.is_set)))


def invalid():
    """values out of their range and variables are marked"""
    def fn(ctx):
        np.random.seed(12)
        n = nets.Net()
        n.add("Source", "so")
        n.add("Pipe", "a", pr=1.2, Q=0)
        n.add("Pipe", "b", D="var", L=100, ks=1e-4, pr=0.97, Q=-1e3)
        n.add("Turbine", "t", eta_s=0.8, pr=0.5)
        n.add("Sink", "si")
        n.chain("so", "a", "b", "t", "si")
        n.conn["1"].set_attr(fluid={"N2": 1}, m=2, p=5, T=200)
        nets.solve(n.nw)
        ctx.true("converged", bool(n.nw.converged))
        got = tables(printed(n.nw, colors=COLORS))
        one_print(ctx, n, got, True)
        cols, rows = got["(Pipe)"]
        for lb, k, m in (("a", "pr", "err"), ("b", "D", "var"),
                         ("b", "pr", "set"), ("a", "zeta", "err"),
                         ("b", "zeta", "")):
            ctx.true(f"{lb}.{k}", rows[lb][cols.index(k)].startswith(
                f"<{m}>" if m else tuple("-0123456789")))
        one_print(ctx, n, tables(printed(n.nw, colored=False)), False)
    return Harness("printing[invalid]", fn, sym=False, conc=1,
                   bounded="this network")


def unsolved():
    """nothing is printed for a network that was never solved"""
    def fn(ctx):
        from tespy.connections import Bus
        n = nets.build("linear")
        for bus in (False, True):
            if bus:
                n.nw.add_busses(Bus("power"))
            try:
                printed(n.nw)
                ok = False
            except nets_error():
                ok = True
            ctx.true("refused", ok)
        nets.solve(n.nw)
        ctx.true("printed", "(Connection)" in tables(printed(n.nw)))
    return Harness("printing[unsolved]", fn, sym=False, conc=1,
                   bounded="one network")


def nets_error():
    from tespy.tools.helpers import TESPyNetworkError
    return TESPyNetworkError


# -------------------------------------------------------------------- Sankey
CATS = ("chemical", "physical", "massless")
KIND = ("two-phase-fluid", "non-combustion-gas", "work")


def frames(flows, nodes):
    out = {}
    for g in nodes:
        idx = pd.MultiIndex(levels=[[], []], codes=[[], []],
                            names=["target_group", "category"])
        out[g] = pd.DataFrame(columns=CATS, index=idx).astype(float)
    for (s, t, k), row in flows.items():
        out[s].loc[(t, k), :] = row
    return out


class Bus:
    def __init__(self, label):
        self.label = label


def blank_analysis(flows, groups):
    import tespy.tools.analyses as A
    x = A.ExergyAnalysis.__new__(A.ExergyAnalysis)
    x.E_F, x.E_P, x.E_L = [Bus("fuel")], [Bus("product")], [Bus("loss")]
    x.internal_busses = [Bus("inner")]
    x.exergy_cats = list(CATS)
    x.reserved_fkt_groups = ["E_P", "E_F", "E_D", "E_L", "inner", "fuel",
                             "product", "loss"]
    x.group_data = pd.DataFrame(index=list(groups), columns=["E_in"])
    x.sankey_data = frames(flows, x.reserved_fkt_groups + list(groups))
    return x


def oracle(flows, reserved, threshold):
    """what remains if groups that only pass on a single flow are left out"""
    fl = {k: list(v) for k, v in flows.items()
          if sum(map(abs, v)) >= threshold}
    while True:
        for g in sorted({k[0] for k in fl} - set(reserved)):
            src = {k[0] for k in fl if k[1] == g and k[0] != g}
            tgt = {k[1] for k in fl if k[0] == g}
            if len(src) == 1 and len(tgt) == 1:
                s = src.pop()
                own = {k: v for k, v in fl.items() if k[0] == g}
                fl = {k: v for k, v in fl.items()
                      if k[0] != g and k[1] != g}
                for (_, t, c), v in own.items():
                    old = fl.get((s, t, c), [0, 0, 0])
                    fl[s, t, c] = [a + b for a, b in zip(old, v)]
                break
        else:
            return fl


def links_of(links, order, colors):
    got = {}
    for s, t, v, c in zip(links["source"], links["target"], links["value"],
                          links["color"]):
        got.setdefault((order[s], order[t], c), []).append(v)
    return {k: sorted(v) for k, v in got.items()}


def random_flows(rng, groups):
    """an acyclic net of flows from the fuel to the sinks"""
    row = (lambda k: [0, 0, rng.uniform(1, 9)] if k in ("work", "E_D")
           else [rng.choice((0, rng.uniform(1, 9))), rng.uniform(1, 9), 0])
    fl = {("E_F", "fuel", "E_F"): row("work")}
    order = ["fuel"] + list(groups)
    for i, g in enumerate(groups):
        for s in rng.sample(order[:i + 1], rng.choice((1, 1, 2))
                            if i else 1):
            for k in rng.sample(KIND, rng.choice((1, 1, 2))):
                fl[s, g, k] = row(k)
    for i, g in enumerate(groups):
        if not any(k[0] == g for k in fl):
            fl[g, rng.choice(("product", "loss")), "work"] = row("work")
        if rng.random() < 0.5:
            fl[g, "E_D", "E_D"] = [0, 0, rng.choice((
                rng.uniform(1, 9), 4e-4))]
    fl["product", "E_P", "E_P"] = row("work")
    return fl


def sankey():
    """every flow above the threshold is one link with its value; groups that
    pass on a single flow are left out; nothing is modified"""
    def fn(ctx):
        for seed in range(24):
            rng = random.Random(seed)
            groups = [f"g{i}" for i in range(rng.choice((1, 2, 3, 4, 5, 6)))]
            flows = random_flows(rng, groups)
            x = blank_analysis(flows, groups)
            thr = rng.choice((0.001, 0.001, 4.0))
            kw = {} if thr == 0.001 else {"display_thresold": thr}
            own = {k: f"c{i}" for i, k in enumerate(
                KIND + ("E_F", "E_P", "E_D", "E_L"))}
            before = {k: t.copy() for k, t in x.sankey_data.items()}
            want = {}
            for (s, t, c), v in oracle(flows, x.reserved_fkt_groups,
                                       thr).items():
                for q in v:
                    if q > 0:
                        want.setdefault((s, t, own[c]), []).append(q)
            for again in range(2 if seed % 3 == 0 else 1):
                links, order = x.generate_plotly_sankey_input(
                    colors=own, **kw)
                got = links_of(links, order, own)
                ctx.true(f"links[{seed}]", set(got) == set(want))
                for k in set(got) & set(want):
                    ctx.true(f"number[{seed}]", len(got[k]) == len(want[k]))
                    for a, b in zip(got[k], sorted(want[k])):
                        ctx.eq(f"value[{seed}]", float(a), b, tol=1e-9)
                for k, t in before.items():
                    ctx.true(f"kept[{seed}]", t.equals(x.sankey_data[k]))
            # nodes in the order of the user; a missing one is refused
            if thr == 0.001:
                mine = list(order)
                rng.shuffle(mine)
                l2, o2 = x.generate_plotly_sankey_input(
                    node_order=list(mine), colors=own, **kw)
                ctx.true("order", o2 == mine)
                ctx.true("same links", {k: [round(float(q), 9) for q in v]
                                        for k, v in links_of(
                                            l2, o2, own).items()} ==
                         {k: [round(float(q), 9) for q in v]
                          for k, v in got.items()})
                gone_ones = ("E_F", "fuel", "product") if seed < 4 else ()
                for gone in gone_ones:
                    rest = [k for k in mine if k != gone]
                    try:
                        x.generate_plotly_sankey_input(node_order=rest,
                                                       colors=own)
                        ok = False
                    except ValueError:
                        ok = True
                    ctx.true("missing", ok)
    return Harness("sankey[random]", fn, sym=False, conc=1,
                   bounded="24 random acyclic nets of up to six groups")


def plant_flows(name):
    """what flows into a node of the diagram flows out of it"""
    def fn(ctx):
        np.random.seed(13)
        n = nets.build("rankine")
        N = n.N
        nets.solve(n.nw)
        heat = N.Bus("heat")
        heat.add_comps({"comp": n.comp["boiler"], "base": "bus"})
        n.nw.add_busses(heat)
        n.comp["boiler"].set_attr(dissipative=False)
        n.comp["condenser"].set_attr(dissipative=True)
        if name == "grouped":
            for k in ("boiler", "turbine"):
                n.comp[k].set_attr(fkt_group="block")
        nets.solve(n.nw)
        from tespy.tools import ExergyAnalysis
        x = ExergyAnalysis(n.nw, E_F=[heat], E_P=[n.bus])
        with nets.quiet():
            x.analyse(pamb=1, Tamb=15)
        nd = x.network_data
        for thr in (1e-3, 1.0):
            links, order = x.generate_plotly_sankey_input(
                display_thresold=thr)
            flow = {}
            for s, t, v in zip(links["source"], links["target"],
                               links["value"]):
                ctx.true("positive", v > 0)
                flow[order[s], order[t]] = flow.get(
                    (order[s], order[t]), 0) + float(v)
            for k in order:
                i = sum(v for (s, t), v in flow.items() if t == k)
                o = sum(v for (s, t), v in flow.items() if s == k)
                if k in ("E_F", "E_P", "E_D", "E_L"):
                    ctx.eq(k, o if k == "E_F" else i, nd[k], tol=1e-6,
                           scale=1e4)
                elif i or o:
                    ctx.eq(f"balance[{k}]", i, o, tol=1e-6, scale=1e4)
        # printed tables of the analysis
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            x.print_results()
        got = tables(f.getvalue())
        for title, t, hide in (
                ("Component exergy analysis", x.component_data, ["group"]),
                ("Bus exergy analysis", x.bus_data, ["group", "base"]),
                ("Aggregation of components and busses",
                 x.aggregation_data, ["group"]),
                ("Functional groups exergy flows", x.group_data, []),
                ("Connection specific physical exergy and chemical exergy",
                 x.connection_data, [])):
            cols, rows = got.get(title, ([""], {}))
            show = [k for k in t.columns if k not in hide]
            ctx.true(f"columns[{title}]", cols[1:] == show)
            ctx.true(f"rows[{title}]", set(rows) == set(t.index))
            for lb, cells in rows.items():
                for k, cell in zip(show, cells[1:]):
                    shows(ctx, f"{title}.{lb}.{k}", cell,
                          float(t.loc[lb, k]), tol=1e-3)
            if "E_D" in show:
                d = [number(c[1 + show.index("E_D")]) for c in
                     rows.values()]
                d = [q for q in d if q is not None and q == q]
                ctx.true(f"sorted[{title}]", d == sorted(d, reverse=True))
        for off in ("busses", "components", "connections", "groups",
                    "network", "aggregation"):
            f = io.StringIO()
            with contextlib.redirect_stdout(f):
                x.print_results(sort_desc=False, **{off: False})
            ctx.true(f"without {off}", len(tables(f.getvalue())) == 5)
    return Harness(f"sankey[{name}]", fn, sym=False, conc=1,
                   bounded="one plant")


def harnesses(tier):
    out = [plotting(k) for k in LINES if k != "Merge"]
    out += [plotting("Merge", {"num_in": k}, f",{k}") for k in (2, 3)]
    out.append(no_plotting())
    out += [component_table(k) for k in (
        "Turbine", "Pump", "Compressor", "Valve", "Pipe",
        "SimpleHeatExchanger", "HeatExchanger", "Condenser", "SolarCollector",
        "ParabolicTrough", "MovingBoundaryHeatExchanger", "SteamTurbine",
        "FuelCell", "WaterElectrolyzer", "CombustionChamber",
        "DiabaticCombustionChamber", "CombustionEngine")]
    out += [connection_table(f) for f in (("H2O",), ("N2", "O2"),
                                          ("N2", "O2", "CO2"))]
    out += [printing(k) for k in ("linear", "rankine", "heat exchanger",
                                  "mixing", "heat pump", "engine")]
    out += [invalid(), unsolved(), sankey()]
    out += [plant_flows(k) for k in ("single", "grouped")]
    return out
