"""C15: setting, unsetting, and switching between design and off-design."""
import os

import numpy as np

from vc.bench import UNIT
from vc.engine import is_sym
from vc.runner import Harness

from . import nets
from .storage import (FLAGS, build, classes, compare, fill, flag, io, line,
                      map_, results)

NUM = ("m", "p", "h", "T", "v", "x", "Td_bp", "vol", "s")
REFS = ("m", "p", "h", "T", "v")


# ---------------------------------------------------------------- snapshots
SKIP = ("is_var", "J_col", "_solved", "func", "deriv", "latex", "func_params",
        "num_eq", "constant_deriv", "elements")


def copied(v):
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, (set, frozenset)):
        return set(v)
    if isinstance(v, list):
        return list(v)
    return v


def snap_conn(c):
    """everything a user can see or specify on a connection"""
    out = {}
    for k, d in c.property_data.items():
        for a, v in vars(getattr(c, k)).items():
            if a not in SKIP or (k == "fluid" and a == "is_var"):
                out[k, a] = copied(v)
    for a in ("val", "is_set"):
        out["state", a] = getattr(c.state, a)
    for a in ("label", "design", "offdesign", "local_design",
              "local_offdesign", "design_path", "printout", "mixing_rule",
              "source", "target", "source_id", "target_id"):
        out[a] = copied(getattr(c, a))
    return out


def snap_comp(cp):
    out = {}
    for k in cp.parameters:
        for a, v in vars(cp.get_attr(k)).items():
            if a not in SKIP or a == "is_var":
                out[k, a] = copied(v)
    for a in ("label", "design", "offdesign", "local_design",
              "local_offdesign", "design_path", "printout", "fkt_group",
              "char_warnings"):
        out[a] = copied(getattr(cp, a))
    return out


def alike(a, b):
    if a is b:
        return True
    if is_sym(a) or is_sym(b):
        return False
    if type(a) in (dict,):
        return type(b) is dict and set(a) == set(b) and all(
            alike(a[k], b[k]) for k in a)
    if isinstance(a, (float, np.floating)) and a != a:
        return b != b
    try:
        return bool(a == b)
    except Exception:
        return False


def frame(ctx, tag, before, after, **expected):
    """exactly the expected changes.  Keys are written container__attr"""
    exp = {}
    for k, v in expected.items():
        exp[tuple(k.split("__")) if "__" in k else k] = v
    ctx.true(tag + ".same things", set(before) == set(after))
    moved = []
    for k, v in before.items():
        if k not in after:
            continue
        if k not in exp and not is_sym(after[k]) and not isinstance(v, dict):
            if not alike(after[k], v):
                moved.append(k)
            continue
        if k not in exp and after[k] is v:
            continue
        want = exp.pop(k, v)
        name = f"{tag}.{'.'.join(k) if isinstance(k, tuple) else k}"
        if is_sym(want) and is_sym(after[k]) and want is not after[k]:
            ctx.eq(name, after[k], want)
        elif isinstance(want, float) and isinstance(after[k], (
                int, float, np.floating)) and want == want:
            ctx.eq(name, after[k], want, tol=1e-12)
        elif isinstance(want, dict) and isinstance(after[k], dict) and any(
                is_sym(x) for x in want.values()):
            ctx.true(name, set(want) == set(after[k]))
            for f in want:
                if f in after[k]:
                    same(ctx, f"{name}[{f}]", after[k][f], want[f])
        else:
            ctx.true(name, alike(after[k], want))
    ctx.true(f"{tag}.nothing else changed {moved or ''}".rstrip(),
             not moved)
    ctx.true(tag + ".expected things", not exp)


def same(ctx, name, a, b):
    if (is_sym(a) or is_sym(b)) and a is not b:
        ctx.eq(name, a, b)
    else:
        ctx.true(name, alike(a, b))


def arbitrary(ctx, c, mode, tag=""):
    """an arbitrary pre-state of a connection"""
    for i, k in enumerate(NUM):
        d = c.get_attr(k)
        for a in ("val", "val0", "val_SI", "design"):
            setattr(d, a, ctx.real(f"{tag}{k}.{a}", typ=(1, 9)))
        d.is_set = flag(mode, i)
        d.unit = "unit"
    c.fluid.val = {f: ctx.real(f"{tag}x.{f}", 0, 1, typ=(0.1, 0.9))
                   for f in ("H2O", "N2")}
    c.fluid.val0 = {"N2": ctx.real(f"{tag}x0", 0, 1, typ=(0.1, 0.9))}
    c.fluid.is_set = {"all": {"H2O", "N2"}, "none": set(), "even": {"H2O"},
                      "odd": {"N2"}}[mode]
    c.fluid.is_var = {"H2O", "N2"} - c.fluid.is_set
    c.fluid.back_end = {"H2O": "IF97", "N2": None}
    c.fluid_balance.is_set = flag(mode, 1)
    c.state.is_set = flag(mode, 0)
    c.state.val = "l"
    for i, k in enumerate(REFS):
        c.get_attr(k + "_ref").is_set = flag(mode, i)


def conns(n=2):
    from tespy.connections import Connection
    out = []
    for k in range(n):
        a, b = build("Source", f"s{k}"), build("Sink", f"k{k}")
        out.append(Connection(a, "out1", b, "in1", label=f"c{k}"))
    return out


def refused(f, *kinds):
    try:
        f()
    except kinds:
        return True
    except Exception:
        return False
    return False


# -------------------------------------------------------------- connections
def conn_numbers():
    """numbers, None and nan; starting values; nothing else changes"""
    def fn(ctx):
        from tespy.connections import Ref
        mode = ctx.choice("state", FLAGS)
        for k in NUM:
            c, o = conns()
            arbitrary(ctx, c, mode)
            refs = {}
            for r in REFS:
                refs[r] = c.get_attr(r + "_ref").ref = Ref(o, 1, 0)
            v = ctx.real("new", typ=(1, 9))
            b, bo = snap_conn(c), snap_conn(o)
            c.set_attr(**{k: v})
            frame(ctx, f"{k}=v", b, snap_conn(c),
                  **{k + "__val": v, k + "__is_set": True})
            b = snap_conn(c)
            w = ctx.real("start", typ=(1, 9))
            c.set_attr(**{k + "0": w})
            frame(ctx, f"{k}0=v", b, snap_conn(c), **{k + "__val0": w})
            off = {k + "__is_set": False}
            if k in REFS:
                off[k + "_ref__is_set"] = False
            for name, none in (("None", None), ("nan", np.nan),
                               ("nan64", np.float64("nan"))):
                c.set_attr(**{k: v})
                if k in REFS:
                    c.get_attr(k + "_ref").is_set = flag(mode, 0)
                b = snap_conn(c)
                c.set_attr(**{k: none})
                frame(ctx, f"{k}={name}", b, snap_conn(c), **off)
            # setting again after unsetting
            b = snap_conn(c)
            c.set_attr(**{k: w})
            frame(ctx, f"{k}=again", b, snap_conn(c),
                  **{k + "__val": w, k + "__is_set": True})
            for bad in ("abc", [1], {"a": 1}, (1, 2), object()):
                b = snap_conn(c)
                ctx.true(f"{k}=bad[{type(bad).__name__}]", refused(
                    lambda: c.set_attr(**{k: bad}), TypeError))
                frame(ctx, f"{k}=bad", b, snap_conn(c))
            frame(ctx, "other", bo, snap_conn(o))
    return Harness("connection numbers", fn, repl=lambda: [], conc=4)


def conn_kinds():
    """kinds of numbers"""
    def fn(ctx):
        for v in (2, 2.5, np.float64(1.25), np.int64(3), np.float32(0.5),
                  -1, 0, 1e300):
            for k in NUM:
                c, _ = conns()
                c.set_attr(**{k: v})
                d = c.get_attr(k)
                ctx.true(f"{k}={v!r}", d.is_set is True and d.val == v)
                c, _ = conns()
                c.set_attr(**{k + "0": v})
                d = c.get_attr(k)
                ctx.true(f"{k}0={v!r}", d.is_set is False and d.val0 == v)
    return Harness("connection kinds of numbers", fn, sym=False, conc=1,
                   bounded="these numbers")


def conn_refs():
    """references"""
    def fn(ctx):
        from tespy.connections import Ref
        mode = ctx.choice("state", FLAGS)
        for k in NUM:
            c, o = conns()
            arbitrary(ctx, c, mode)
            f = ctx.real("factor", typ=(1, 3))
            d = ctx.real("delta", typ=(1, 3))
            r = Ref(o, f, d)
            same(ctx, "factor", r.factor, f)
            same(ctx, "delta", r.delta, d)
            ctx.true("obj", r.obj is o)
            b, bo = snap_conn(c), snap_conn(o)
            if k in REFS:
                c.set_attr(**{k: r})
                frame(ctx, f"{k}=Ref", b, snap_conn(c),
                      **{k + "_ref__is_set": True, k + "_ref__ref": r})
                b = snap_conn(c)
                c.set_attr(**{k: None})
                frame(ctx, f"{k}=None", b, snap_conn(c),
                      **{k + "_ref__is_set": False, k + "__is_set": False})
                r2 = Ref(c, 2, 1)
                b = snap_conn(c)
                c.set_attr(**{k: r2})
                frame(ctx, f"{k}=Ref again", b, snap_conn(c),
                      **{k + "_ref__is_set": True, k + "_ref__ref": r2})
            else:
                ctx.true(f"{k}=Ref refused", refused(
                    lambda: c.set_attr(**{k: r}), NotImplementedError))
                frame(ctx, f"{k}=Ref refused", b, snap_conn(c))
            frame(ctx, "other", bo, snap_conn(o))
        ctx.true("no connection", refused(lambda: Ref(1, 1, 1), TypeError))
        ctx.true("no factor", refused(lambda: Ref(o, "1", 1), TypeError))
        ctx.true("no delta", refused(lambda: Ref(o, 1, None), TypeError))
    return Harness("connection references", fn, repl=lambda: [], conc=4)


def conn_fluids():
    """composition"""
    def fn(ctx):
        from tespy.tools.fluid_properties.wrappers import IAPWSWrapper
        mode = ctx.choice("state", FLAGS)
        for f in ("H2O", "N2", "O2"):
            for prefix in ("", "IF97::", "HEOS::"):
                c, o = conns()
                arbitrary(ctx, c, mode)
                arbitrary(ctx, o, mode, "o.")
                v = ctx.real("new", 0, 1, typ=(0.1, 0.9))
                b, bo = snap_conn(c), snap_conn(o)
                c.set_attr(fluid={prefix + f: v})
                a = b
                frame(ctx, f"{prefix}{f}", b, snap_conn(c),
                      fluid__val={**a["fluid", "val"], f: v},
                      fluid__is_set=a["fluid", "is_set"] | {f},
                      fluid__is_var=a["fluid", "is_var"] - {f},
                      fluid__back_end={**a["fluid", "back_end"],
                                       f: prefix[:-2] or None})
                b = snap_conn(c)
                c.set_attr(fluid={f: None})
                frame(ctx, f"{prefix}{f}=None", b, snap_conn(c),
                      fluid__is_set=b["fluid", "is_set"] - {f},
                      fluid__is_var=b["fluid", "is_var"] | {f})
                frame(ctx, "other", bo, snap_conn(o))
        # several at once, in any order
        for order in (("H2O", "N2", "O2"), ("O2", "N2", "H2O")):
            c, o = conns()
            arbitrary(ctx, c, mode)
            v = {f: ctx.real("new." + f, 0, 1, typ=(0.1, 0.9))
                 for f in ("H2O", "O2")}
            v["N2"] = None
            b = snap_conn(c)
            c.set_attr(fluid={f: v[f] for f in order})
            frame(ctx, "several", b, snap_conn(c),
                  fluid__val={**b["fluid", "val"], "H2O": v["H2O"],
                              "O2": v["O2"]},
                  fluid__is_set=b["fluid", "is_set"] - {"N2"} | {"H2O",
                                                                 "O2"},
                  fluid__is_var=b["fluid", "is_var"] - {"H2O"} | {"N2"},
                  fluid__back_end={"H2O": None, "N2": None, "O2": None})
            b = snap_conn(c)
            c.set_attr(fluid0={"O2": v["O2"], "H2O": v["H2O"]})
            frame(ctx, "fluid0", b, snap_conn(c),
                  fluid__val0={**b["fluid", "val0"], "O2": v["O2"],
                               "H2O": v["H2O"]})
            b = snap_conn(c)
            c.set_attr(fluid_engines={"H2O": IAPWSWrapper})
            frame(ctx, "fluid_engines", b, snap_conn(c),
                  fluid__engine={"H2O": IAPWSWrapper})
            for on in (True, False, True):
                b = snap_conn(c)
                c.set_attr(fluid_balance=on)
                frame(ctx, "fluid_balance", b, snap_conn(c),
                      fluid_balance__is_set=on)
        b = snap_conn(c)
        for k, bad in (("fluid", ["H2O"]), ("fluid", 1), ("fluid0", "x"),
                       ("fluid_engines", 1), ("fluid_balance", 1),
                       ("fluid_balance", "yes")):
            ctx.true(f"{k}=bad", refused(lambda: c.set_attr(**{k: bad}),
                                         TypeError))
        ctx.true("fluids", refused(lambda: c.set_attr(fluids={"H2O": 1}),
                                   KeyError))
        frame(ctx, "refused", b, snap_conn(c))
    return Harness("connection composition", fn, repl=lambda: [], conc=4)


def conn_rest():
    """state, lists and flags"""
    def fn(ctx):
        mode = ctx.choice("state", FLAGS)
        c, o = conns()
        arbitrary(ctx, c, mode)
        bo = snap_conn(o)

        def ok(tag, kw, **exp):
            b = snap_conn(c)
            c.set_attr(**kw)
            frame(ctx, tag, b, snap_conn(c), **exp)

        def no(kw, *kinds):
            b = snap_conn(c)
            ctx.true(f"{kw}", refused(lambda: c.set_attr(**kw), *kinds))
            frame(ctx, f"{kw}", b, snap_conn(c))

        for s in ("l", "g", "l"):
            ok("state", {"state": s}, state__val=s, state__is_set=True)
        ok("state", {"state": None}, state__is_set=False)
        for s in ("x", 1, "lg", ""):
            no({"state": s}, TypeError)
        keys = list(c.property_data)
        for k in ("design", "offdesign"):
            for lst in (["m"], ["T", "p"], [], ["x", "Td_bp", "v"],
                        ["m_ref"]):
                ok(k, {k: lst}, **{k: lst})
            ok(k, {k: ["m"]}, **{k: ["m"]})
            no({k: "m"}, TypeError)
            no({k: None}, TypeError)
            no({k: ("m",)}, TypeError)
            no({k: ["eta_s"]}, ValueError)
            no({k: ["m", "eta_s"]}, ValueError)
        ctx.true("keys", {"m", "p", "h", "T", "x", "v", "Td_bp"} <=
                 set(keys))
        for k in ("printout", "local_design", "local_offdesign"):
            for v in (True, False, True):
                ok(k, {k: v}, **{k: v})
            no({k: 1}, TypeError)
            no({k: "True"}, TypeError)
            no({k: None}, TypeError)
        for p in ("some/path", "other", None):
            c.new_design = False
            ok("design_path", {"design_path": p}, design_path=p)
            ctx.true("new design point", bool(c.new_design))
        ok("mixing_rule", {"mixing_rule": "ideal"}, mixing_rule="ideal")
        no({"foo": 1}, KeyError)
        no({"m1": 1}, KeyError)
        from tespy.tools.helpers import TESPyConnectionError
        no({"label": "x"}, TESPyConnectionError)
        # several at once are the same as one after the other
        v = [ctx.real(f"v{i}", typ=(1, 3)) for i in range(4)]
        ok("several", dict(m=v[0], p0=v[1], T=None, x=v[2], design=["m"],
                           printout=False, state="g",
                           fluid={"O2": v[3]}),
           m__val=v[0], m__is_set=True, p__val0=v[1], T__is_set=False,
           T_ref__is_set=False, x__val=v[2], x__is_set=True, design=["m"],
           printout=False, state__val="g", state__is_set=True,
           fluid__val={"H2O": c.fluid.val["H2O"],
                       "N2": c.fluid.val["N2"], "O2": v[3]},
           fluid__is_set=c.fluid.is_set | {"O2"},
           fluid__is_var=c.fluid.is_var - {"O2"},
           fluid__back_end={**c.fluid.back_end, "O2": None})
        frame(ctx, "other", bo, snap_conn(o))
    return Harness("connection lists and flags", fn, repl=lambda: [],
                   conc=4)


# --------------------------------------------------------------- components
def comp_params(cls):
    """every parameter of every component class"""
    def fn(ctx):
        from tespy.tools import data_containers as D
        mode = ctx.choice("set", FLAGS)
        a, o = build(cls, "a"), build(cls, "o")
        fill(ctx, a, mode)
        fill(ctx, o, mode)
        bo = snap_comp(o)

        def ok(tag, kw, **exp):
            b = snap_comp(a)
            a.set_attr(**kw)
            frame(ctx, tag, b, snap_comp(a), **exp)

        def no(tag, kw, *kinds):
            b = snap_comp(a)
            ctx.true(tag + ".refused", refused(lambda: a.set_attr(**kw),
                                               *kinds))
            frame(ctx, tag, b, snap_comp(a))

        for k, d in sorted(a.parameters.items()):
            ctx.true(f"{k}.own", a.get_attr(k) is d and
                     o.get_attr(k) is not d)
            if k.startswith("num_"):
                continue
            v = ctx.real(f"new.{k}", typ=(1, 9))
            if isinstance(d, D.ComponentProperties):
                ok(f"{k}=v", {k: v}, **{k + "__val": v, k + "__is_set": True,
                                        k + "__is_var": False})
                ok(f"{k}=var", {k: "var"}, **{k + "__is_set": True,
                                              k + "__is_var": True})
                ok(f"{k}=w", {k: v + 1}, **{
                    k + "__val": v + 1, k + "__is_set": True,
                    k + "__is_var": False})
                ok(f"{k}=var", {k: "var"}, **{k + "__is_set": True,
                                              k + "__is_var": True})
                ok(f"{k}=None", {k: None}, **{k + "__is_set": False,
                                              k + "__is_var": False})
                ok(f"{k}=dict", {k: {"val": v, "is_set": True,
                                     "is_var": True, "max_val": v + 3}},
                   **{k + "__val": v, k + "__is_set": True,
                      k + "__is_var": True, k + "__max_val": v + 3})
                for bad in ("abc", [1], object()):
                    no(f"{k}=bad", {k: bad}, TypeError)
                no(f"{k}=bad dict", {k: {"foo": 1}}, KeyError)
                ok(f"{k}=None", {k: None}, **{k + "__is_set": False,
                                              k + "__is_var": False})
            elif isinstance(d, D.SimpleDataContainer):
                ok(f"{k}=v", {k: v}, **{k + "__val": v,
                                        k + "__is_set": True})
                ok(f"{k}=None", {k: None}, **{k + "__is_set": False})
                ok(f"{k}=text", {k: "text"}, **{k + "__val": "text",
                                                k + "__is_set": True})
                ok(f"{k}=None", {k: None}, **{k + "__is_set": False})
            elif isinstance(d, (D.ComponentCharacteristics,
                                D.ComponentCharacteristicMaps)):
                ln = line(ctx, "ln." + k) if isinstance(
                    d, D.ComponentCharacteristics) else map_(ctx,
                                                             "mp." + k)
                ok(f"{k}=line", {k: ln}, **{k + "__char_func": ln})
                ok(f"{k}=dict", {k: {"is_set": True, "param": "m"}},
                   **{k + "__is_set": True, k + "__param": "m"})
                ok(f"{k}=None", {k: None}, **{k + "__is_set": False})
                ok(f"{k}=dict", {k: {"char_func": ln, "is_set": True}},
                   **{k + "__is_set": True, k + "__char_func": ln})
                for bad in ("abc", 1.5, [1]):
                    no(f"{k}=bad", {k: bad}, TypeError)
                no(f"{k}=bad dict", {k: {"foo": 1}}, KeyError)
                ok(f"{k}=None", {k: None}, **{k + "__is_set": False})
            else:
                ok(f"{k}=dict", {k: {"is_set": True}},
                   **{k + "__is_set": True})
                ok(f"{k}=None", {k: None}, **{k + "__is_set": False})
                for bad in ("abc", 1.5, [1], True):
                    no(f"{k}=bad", {k: bad}, TypeError)
        keys = sorted(a.parameters)
        for k in ("design", "offdesign"):
            for lst in (keys[:1], keys[1:4], [], keys):
                ok(k, {k: lst}, **{k: lst})
            for bad in ("P", None, ("P",)):
                no(k, {k: bad}, TypeError)
            no(k, {k: ["nothing like this"]}, ValueError)
            no(k, {k: keys + ["m"]}, ValueError)
        for k in ("printout", "local_design", "local_offdesign",
                  "char_warnings"):
            for v in (True, False, True):
                ok(k, {k: v}, **{k: v})
            for bad in (1, None, "True"):
                no(k, {k: bad}, TypeError)
        for p in ("some/path", "other", None):
            a.new_design = False
            ok("design_path", {"design_path": p}, design_path=p)
            ctx.true("new design point", bool(a.new_design))
        ok("fkt_group", {"fkt_group": "g"}, fkt_group="g")
        no("unknown", {"foo": 1}, KeyError)
        no("label", {"label": "x"}, KeyError)
        frame(ctx, "other", bo, snap_comp(o))
    return Harness(f"component[{cls}]", fn, repl=lambda: [], conc=4)


# ------------------------------------------------------- switching, symbolic
PU = ("P", "eta_s", "pr")
HX = ("Q", "pr", "zeta", "kA")
CASES = (
    # design, offdesign of pump; of heater; of connections 1, 2
    (["eta_s"], ["eta_s_char"], ["pr"], ["zeta"], ["p"], ["T"]),
    (["pr", "eta_s"], ["P"], ["Q"], ["kA", "zeta"], ["m", "T"],
     ["v", "h"]),
    ([], ["pr", "eta_s"], ["zeta", "pr"], [], [], ["m"]),
    (["P"], [], [], ["Q", "pr", "kA"], ["p", "x"], []),
    (["eta_s"], ["eta_s"], ["kA"], ["kA"], ["p", "h"], ["p"]),
)
PROPS = ("m", "p", "h", "T", "v", "x", "s", "vol", "Td_bp")


class Plant:
    """source, pump, heater, sink with arbitrary values everywhere; design
    points in several folders, with arbitrary numbers"""

    def __init__(self, ctx, case, local=None, own=()):
        import pandas as pd
        from tespy.tools.global_vars import fluid_property_data as fpd
        self.ctx = ctx
        n = nets.Net(p_unit="bar", T_unit="C", h_unit="kJ / kg")
        n.add("Source", "so")
        n.add("Pump", "pu")
        n.add("SimpleHeatExchanger", "hx")
        n.add("Sink", "si")
        n.chain("so", "pu", "hx", "si")
        for c in n.conn.values():
            c.set_attr(fluid={"water": 1})
        self.nw = nw = n.nw
        self.n = n
        nw.check_network()
        nw.all_fluids = ["water"]
        nw.num_bus_eq = nw.num_comp_eq = nw.num_conn_eq = 0
        nw.num_vars = nw.num_comp_vars = nw.num_conn_vars = 0
        nw.variables_dict = {}
        nw.init_previous = True
        self.pu, self.hx = n.comp["pu"], n.comp["hx"]
        self.cs = [n.conn[k] for k in "123"]
        bus = n.N.Bus("bus")
        bus.add_comps({"comp": self.pu}, {"comp": self.hx})
        other = n.N.Bus("other")
        other.add_comps({"comp": self.hx})
        nw.add_busses(bus, other)
        self.bus, self.other = bus, other
        self.tables = {}
        self.ctx = ctx
        for path in ("net", "own"):
            for cp, keys in ((self.pu, PU), (self.hx, HX)):
                row = {}
                for k, d in cp.parameters.items():
                    if type(d).__name__ == "ComponentProperties":
                        row[k] = ctx.real(f"{path}.{cp.label}.{k}",
                                          typ=(1, 9))
                self.tables[path, type(cp).__name__] = pd.DataFrame(
                    {k: pd.Series([v], index=[cp.label], dtype=object)
                     for k, v in row.items()})
            cols = {}
            units = {"p": "bar" if path == "net" else "MPa",
                     "T": "C" if path == "net" else "F",
                     "h": "kJ / kg" if path == "net" else "J / kg"}
            for k in fpd:
                cols[k] = [ctx.real(f"{path}.{c.label}.{k}", 0, strict=True,
                                    typ=(1, 9)) for c in self.cs]
                cols[k + "_unit"] = [units.get(k, fpd[k]["SI_unit"])] * 3
            cols["water"] = [1.0] * 3
            self.tables[path, "connections"] = pd.DataFrame(
                cols, index=list("123"), dtype=object)
        nw.init_read_connections = self.read_connections
        nw._read_csv = self.read_csv
        self.reads = []
        d1, o1, d2, o2, dc, oc = case
        self.pu.set_attr(design=list(d1), offdesign=list(o1))
        self.hx.set_attr(design=list(d2), offdesign=list(o2))
        self.cs[0].set_attr(design=list(dc), offdesign=list(oc))
        self.cs[2].set_attr(design=list(oc), offdesign=list(dc))
        for o in own:
            self.obj(o).set_attr(design_path="own")
        if local:
            what, o = local
            self.obj(o).set_attr(**{"local_" + what: True})

    def obj(self, name):
        return {"pu": self.pu, "hx": self.hx, "1": self.cs[0],
                "2": self.cs[1], "3": self.cs[2]}[name]

    def objs(self):
        return [("1", self.cs[0]), ("2", self.cs[1]), ("3", self.cs[2]),
                ("pu", self.pu), ("hx", self.hx)]

    def read_connections(self, path):
        self.reads.append(path)
        return self.tables[path, "connections"].copy()

    def read_csv(self, path):
        p, _, f = path.split(os.sep)
        self.reads.append(p)
        return self.tables[p, f[:-4]].copy()

    def design_value(self, o, k):
        """the design value of a parameter as the files say it"""
        from tespy.tools.helpers import convert_to_SI
        x = self.obj(o)
        path = x.design_path or "net"
        if o in ("pu", "hx"):
            return self.tables[path, type(x).__name__].loc[o, k]
        t = self.tables[path, "connections"].loc[o]
        return convert_to_SI(k, t[k], t[k + "_unit"])

    def fill(self, mode):
        """arbitrary values, flags"""
        ctx = self.ctx
        for lb, c in self.objs()[:3]:
            for i, k in enumerate(PROPS):
                d = c.get_attr(k)
                d.val = ctx.real(f"c{lb}.{k}", typ=(1, 9))
                d.val_SI = ctx.real(f"c{lb}.{k}.SI", typ=(1, 9))
                d.val0 = ctx.real(f"c{lb}.{k}.0", typ=(1, 9))
                d.design = ctx.real(f"c{lb}.{k}.design", typ=(1, 9))
                d.is_set = flag(mode, i + int(lb)) and k != "vol" \
                    and k != "s"
                d.unit = UNIT[k]
            for k in ("v_ref", "T_ref"):
                q = c.get_attr(k)
                q.is_set = flag(mode, int(lb))
        for lb, cp in self.objs()[3:]:
            for i, (k, d) in enumerate(sorted(cp.parameters.items())):
                if type(d).__name__ == "ComponentProperties":
                    d.val = ctx.real(f"{lb}.{k}", typ=(1, 9))
                    d.design = ctx.real(f"{lb}.{k}.design", typ=(1, 9))
                    d.is_set = flag(mode, i)
                elif hasattr(d, "char_func"):
                    d.is_set = flag(mode, i)
        for b in (self.bus, self.other):
            b.comps["P_ref"] = b.comps["P_ref"].astype(object)
            for cp in b.comps.index:
                b.comps.loc[cp, "P_ref"] = 17.5

    def snap(self):
        return {lb: (snap_conn if lb in "123" else snap_comp)(x)
                for lb, x in self.objs()}

    def prefs(self):
        return {(b.label, cp.label): b.comps.loc[cp, "P_ref"]
                for b in (self.bus, self.other) for cp in b.comps.index}

    def quiet(self):
        """callees with contracts of their own"""
        for c in self.cs:
            c.simplify_specifications = lambda: None


GROUPS = ("is_set",)


def drop_groups(p, s):
    """groups follow their elements (preprocess): not part of this"""
    out = {}
    for lb, d in s.items():
        out[lb] = {k: v for k, v in d.items() if not (
            lb in ("pu", "hx") and isinstance(k, tuple) and type(
                p.obj(lb).parameters[k[0]]).__name__.startswith("Grouped"))
            and not (isinstance(k, tuple) and k[1] == "char_func")
            and k != ("Tamb", "val_SI")}
    return out


def key(k):
    return "__".join(k)


def offdesign_params(i):
    """reading the design point"""
    def fn(ctx):
        case = CASES[i]
        mode = ctx.choice("set", FLAGS)
        own = ctx.choice("own path", ((), ("pu",), ("1",), ("hx", "3")))
        loc = ctx.choice("local", (None, ("design", "pu"),
                                   ("design", "2")))
        p = Plant(ctx, case, loc, own)
        p.fill(mode)
        nw = p.nw
        nw.mode = "offdesign"
        pr = {("bus", "pu"): ctx.real("P.pu", typ=(1, 9)),
              ("bus", "hx"): ctx.real("P.hx", typ=(1, 9)),
              ("other", "hx"): ctx.real("P.other", typ=(1, 9))}
        before = p.snap()
        import json
        with nets.scratch() as d, io(ctx) as js:
            import tespy.networks.network as N
            nw.design_path = "net"
            data = {"bus": {"pu": pr["bus", "pu"], "hx": pr["bus", "hx"]},
                    "other": {"hx": pr["other", "hx"]}}
            with open(os.path.join(d, "busses.json"), "w") as f:
                N.json.dump(data, f)
            # the folder is only opened for busses.json
            old = os.path.join

            def join(a, *k):
                if k == ("busses.json",):
                    return old(d, *k)
                return old(a, *k)
            N.os.path.join, keep = join, N.os.path.join
            try:
                nw.init_offdesign_params()
            finally:
                N.os.path.join = keep
            assert js or json
        after = p.snap()
        exp = {lb: {} for lb, _ in p.objs()}
        for lb, x in p.objs():
            if lb in "123":
                from tespy.tools.global_vars import fluid_property_data
                for k in fluid_property_data:
                    exp[lb][k + "__design"] = p.design_value(lb, k)
                exp[lb]["vol__design"] = p.design_value(
                    lb, "v") / p.design_value(lb, "m")
                exp[lb]["fluid__design"] = {"water": 1.0}
            else:
                for k, dd in x.parameters.items():
                    if type(dd).__name__ == "ComponentProperties":
                        exp[lb][k + "__design"] = np.nan if loc == (
                            "design", lb) else p.design_value(lb, k)
            frame(ctx, lb, before[lb], after[lb], **exp[lb])
        for k, v in p.prefs().items():
            same(ctx, f"P_ref{k}", v, pr[k])
    return Harness(f"design point[{i}]", fn, repl=lambda: [], conc=4,
                   max_paths=4000, bounded="the design lists enumerated",
                   assumptions=["reading the csv files by their contract: "
                                "the table that was saved"])


def vspace(ctx, p):
    """the variables are the primary values that are not specified"""
    nw = p.nw
    want = set()
    for c in p.cs:
        for k in ("m", "p", "h"):
            d = c.get_attr(k)
            if not d.is_set:
                want.add((c.label, k))
            ctx.true(f"is_var[{c.label}.{k}]", bool(d.is_var) ==
                     (not d.is_set))
    cp = {(lb, k) for lb, x in p.objs()[3:] for k, d in
          x.parameters.items() if getattr(d, "is_var", False)}
    got = {(v["obj"].label, v["variable"]) for v in
           nw.variables_dict.values() if v["variable"] in ("m", "p", "h")}
    ctx.true("variables", got == want)
    ctx.true("number of variables", nw.num_conn_vars == len(want) and
             nw.num_comp_vars == len(cp) and
             len(nw.variables_dict) == len(want) + len(cp))
    neq = 0
    for lb, x in p.objs()[3:]:
        for k, d in x.parameters.items():
            if d.is_set and d.func is not None:
                neq += d.num_eq
    ctx.true("number of equations", nw.num_comp_eq == neq + sum(
        v["num_eq"] for cp in nw.comps["object"] for v in
        cp.get_mandatory_constraints().values()))
    for c in p.cs:
        n = sum(1 for k, d in c.parameters.items() if c.get_attr(k).is_set)
        ctx.true(f"equations[{c.label}]", c.num_eq == n)
    ctx.true("bus equations", nw.num_bus_eq == sum(
        b.P.is_set for b in nw.busses.values()))


def to_offdesign(i):
    """design parameters out, offdesign parameters in at design values"""
    def fn(ctx):
        case = CASES[i]
        mode = ctx.choice("set", FLAGS)
        loc = ctx.choice("local", (None, ("design", "pu"), ("design", "hx"),
                                   ("design", "1"), ("design", "3")))
        p = Plant(ctx, case, loc)
        p.fill(mode)
        p.quiet()
        nw = p.nw
        p.bus.P.is_set = flag(mode, 0)
        nw.mode = "offdesign"
        before = drop_groups(p, p.snap())
        refs = p.prefs()
        nw.init_offdesign()
        after = drop_groups(p, p.snap())
        for lb, x in p.objs():
            exp = {}
            if loc != ("design", lb):
                for k in x.design:
                    exp[k + "__is_set"] = False
                    if lb in "123" and k + "_ref" in x.property_data:
                        exp[k + "_ref__is_set"] = False
                for k in x.offdesign:
                    exp[k + "__is_set"] = True
                    if lb in "123":
                        exp[k + "__val_SI"] = x.get_attr(k).design
                    elif hasattr(x.get_attr(k), "design"):
                        exp[k + "__val"] = x.get_attr(k).design
                ctx.true(f"{lb}.new design", not x.new_design)
            frame(ctx, lb, before[lb], after[lb], **exp)
        for k, v in p.prefs().items():
            same(ctx, f"P_ref{k}", v, refs[k])
        vspace(ctx, p)
    return Harness(f"to off-design[{i}]", fn, repl=lambda: [], conc=4,
                   max_paths=4000, bounded="the design lists enumerated",
                   assumptions=["simplify_specifications by its contract "
                                "(C04)"])


def to_design(i):
    """back to design mode, and local off-design"""
    def fn(ctx):
        case = CASES[i]
        mode = ctx.choice("set", FLAGS)
        redesign = ctx.choice("redesign", (False, True))
        loc = ctx.choice("local", (None, ("offdesign", "pu"),
                                   ("offdesign", "hx"),
                                   ("offdesign", "1"), ("offdesign", "3")))
        p = Plant(ctx, case, loc, (loc[1],) if loc else ())
        p.fill(mode)
        p.quiet()
        nw = p.nw
        p.bus.P.is_set = flag(mode, 1)
        nw.mode = "design"
        nw.redesign = redesign
        before = drop_groups(p, p.snap())
        nw.init_design()
        after = drop_groups(p, p.snap())
        for lb, x in p.objs():
            exp = {}
            if lb in "123":
                for k in ("m", "p", "h"):
                    exp[k + "__design"] = np.nan
                exp["fluid__design"] = {}
            else:
                for k, d in x.parameters.items():
                    if hasattr(d, "design"):
                        exp[k + "__design"] = np.nan
            if loc == ("offdesign", lb):
                for k in x.design:
                    exp[k + "__is_set"] = False
                if lb in "123":
                    from tespy.tools.global_vars import \
                        fluid_property_data as fpd
                    for k in fpd:
                        exp[k + "__design"] = p.design_value(lb, k)
                    exp["vol__design"] = p.design_value(
                        lb, "v") / p.design_value(lb, "m")
                    exp["fluid__design"] = {"water": 1.0}
                else:
                    for k, d in x.parameters.items():
                        if hasattr(d, "design"):
                            exp[k + "__design"] = p.design_value(lb, k)
                for k in x.offdesign:
                    exp[k + "__is_set"] = True
                    if lb in "123":
                        exp[k + "__val_SI"] = p.design_value(lb, k)
                    elif hasattr(x.get_attr(k), "design"):
                        exp[k + "__val"] = p.design_value(lb, k)
            elif redesign:
                for k in x.design:
                    exp[k + "__is_set"] = True
                for k in x.offdesign:
                    exp[k + "__is_set"] = False
            frame(ctx, lb, before[lb], after[lb], **exp)
            ctx.true(f"{lb}.new design", loc == ("offdesign", lb) or
                     bool(x.new_design))
        for k, v in p.prefs().items():
            ctx.true(f"P_ref{k}", v != v)
        vspace(ctx, p)
    return Harness(f"to design[{i}]", fn, repl=lambda: [], conc=4,
                   max_paths=4000, bounded="the design lists enumerated",
                   assumptions=["simplify_specifications by its contract "
                                "(C04)", "reading the csv files by their "
                                "contract: the table that was saved"])


def local_without_path():
    def fn(ctx):
        from tespy.tools.helpers import TESPyNetworkError
        p = Plant(ctx, CASES[0], ("offdesign", "1"))
        p.nw.mode = "design"
        p.nw.redesign = False
        p.quiet()
        ctx.true("refused", refused(p.nw.init_design, TESPyNetworkError))
        p = Plant(ctx, CASES[0])
        ctx.true("no design path", refused(
            lambda: nets.solve(p.nw, "offdesign"), TESPyNetworkError))
        ctx.true("no such mode", refused(
            lambda: nets.solve(p.nw, "partload"), ValueError))
    return Harness("no design point", fn, sym=False, conc=1)


def rereading():
    """when the design point is read again"""
    def fn(ctx):
        def run(nw, mode, path=None):
            log = []
            nw.checked = True
            nw.initialise = lambda: log.append(nw.new_design)
            nw.solve(mode, design_path=path, init_only=True)
            return log[0]

        def fresh():
            p = Plant(ctx, CASES[0])
            for _, x in p.objs():
                x.new_design = False
            for x in p.n.comp.values():
                x.new_design = False
            return p

        p = fresh()
        ctx.true("first", run(p.nw, "offdesign", "a"))
        ctx.true("again", not run(p.nw, "offdesign", "a"))
        ctx.true("other path", run(p.nw, "offdesign", "b"))
        ctx.true("other path again", not run(p.nw, "offdesign", "b"))
        ctx.true("design", run(p.nw, "design"))
        ctx.true("after design", run(p.nw, "offdesign", "b"))
        for o in ("1", "2", "3", "pu", "hx"):
            p = fresh()
            run(p.nw, "offdesign", "a")
            ctx.true("same", not run(p.nw, "offdesign", "a"))
            p.obj(o).set_attr(design_path="own")
            ctx.true(f"own path[{o}]", run(p.nw, "offdesign", "a"))
    return Harness("reading again", fn, sym=False, conc=1,
                   bounded="these histories")


# ------------------------------------------------------------ whole networks
def plant():
    """a steam cycle with off-design behaviour"""
    n = nets.Net()
    n.add("Source", "so")
    n.add("Turbine", "turbine", eta_s=0.88, design=["eta_s"],
          offdesign=["eta_s_char", "cone"])
    n.add("Condenser", "cond", pr1=1, pr2=0.98, ttd_u=4,
          design=["pr2", "ttd_u"], offdesign=["zeta2", "kA_char"])
    n.add("Pump", "pump", eta_s=0.78, design=["eta_s"],
          offdesign=["eta_s_char"])
    n.add("SimpleHeatExchanger", "boiler", pr=0.95, design=["pr"],
          offdesign=["zeta"])
    n.add("Sink", "si")
    n.add("Source", "cso")
    n.add("Sink", "csi")
    n.link("1", "so", "out1", "turbine", "in1", fluid={"water": 1}, m=10,
           p=60, T=450, design=["p"])
    n.link("2", "turbine", "out1", "cond", "in1")
    n.link("3", "cond", "out1", "pump", "in1")
    n.link("4", "pump", "out1", "boiler", "in1")
    n.link("5", "boiler", "out1", "si", "in1", p=60, T=450)
    n.link("6", "cso", "out1", "cond", "in2", fluid={"water": 1}, T=20, p=3)
    n.link("7", "cond", "out2", "csi", "in1", T=35, design=["T"],
           offdesign=["v"])
    bus = n.N.Bus("power")
    bus.add_comps({"comp": n.comp["turbine"], "char": 0.97,
                   "base": "component"},
                  {"comp": n.comp["pump"], "char": 0.95, "base": "bus"})
    n.nw.add_busses(bus)
    return n


OFF = dict(nets.NETS)
OFF["plant"] = plant


def gist(nw):
    r = results(nw)
    return {k: v for k, v in r.items() if v == v}


def at_design_point(name):
    """off-design at the design point is the design; part load does not
    depend on the way there; design again"""
    def fn(ctx):
        np.random.seed(3)
        with nets.scratch() as d, nets.quiet():
            n = OFF[name]()
            nw = n.nw
            nets.solve(nw)
            ctx.true("converged", bool(nw.converged))
            first = gist(nw)
            flags = setflags(nw)
            nw.save(d)
            for k in range(2):
                nets.solve(nw, "offdesign", design_path=d)
                ctx.true("off-design converged", bool(nw.converged))
                compare(ctx, f"off-design[{k}]", first, gist(nw), tol=1e-4)
            off = setflags(nw)
            judge_flags(ctx, n, flags, off)
            nets.solve(nw)
            ctx.true("design again converged", bool(nw.converged))
            compare(ctx, "design again", first, gist(nw), tol=1e-4)
            ctx.true("design again", setflags(nw) == flags)
    return Harness(f"design point[{name}]", fn, sym=False, conc=1,
                   bounded="this network", time_s=120)


def setflags(nw):
    out = {}
    for c in nw.conns["object"]:
        for k in ("m", "p", "h", "T", "v", "x", "Td_bp"):
            out[c.label, k] = bool(c.get_attr(k).is_set)
        for k in REFS:
            out[c.label, k + "_ref"] = bool(c.get_attr(k + "_ref").is_set)
    for cp in nw.comps["object"]:
        for k, d in cp.parameters.items():
            if not type(d).__name__.startswith("Grouped"):
                out[cp.label, k] = bool(d.is_set)
    return out


def judge_flags(ctx, n, flags, off):
    exp = dict(flags)
    for x in list(n.conn.values()) + list(n.comp.values()):
        for k in x.design:
            exp[x.label, k] = False
        for k in x.offdesign:
            exp[x.label, k] = True
    for k in exp:
        ctx.true(f"specified[{k}]", off.get(k, exp[k]) == exp[k])


def part_load():
    """the result of a part load calculation depends on the design point and
    the specifications, not on what was calculated before"""
    def fn(ctx):
        np.random.seed(3)

        def load(n, m):
            n.conn["1"].set_attr(m=m)

        with nets.scratch() as d, nets.quiet():
            n = plant()
            nets.solve(n.nw)
            n.nw.save(d)
            ref = {}
            for m in (9, 8):
                q = plant()
                nets.solve(q.nw, "design")
                load(q, m)
                nets.solve(q.nw, "offdesign", design_path=d)
                ctx.true("fresh converged", bool(q.nw.converged))
                ref[m] = gist(q.nw)
            for m in (9, 8, 9):
                load(n, m)
                nets.solve(n.nw, "offdesign", design_path=d)
                ctx.true("converged", bool(n.nw.converged))
                compare(ctx, f"load {m}", ref[m], gist(n.nw), tol=1e-4)
            # mass flow specified elsewhere in the same branch
            n.conn["1"].set_attr(m=None)
            n.conn["4"].set_attr(m=8)
            for k in range(2):
                nets.solve(n.nw, "offdesign", design_path=d)
                compare(ctx, f"moved {k}", ref[8], gist(n.nw), tol=1e-4)
            n.conn["4"].set_attr(m=None)
            n.conn["2"].set_attr(m=9)
            nets.solve(n.nw, "offdesign", design_path=d)
            compare(ctx, "moved again", ref[9], gist(n.nw), tol=1e-4)
            # unsetting and setting again
            n.conn["2"].set_attr(m=None)
            n.conn["5"].set_attr(m=8)
            n.conn["5"].set_attr(m=None)
            n.conn["1"].set_attr(m=8)
            nets.solve(n.nw, "offdesign", design_path=d)
            compare(ctx, "back", ref[8], gist(n.nw), tol=1e-4)
            # after an aborted calculation
            n.conn["6"].set_attr(m=3)
            ctx.true("over-determined", refused(
                lambda: nets.solve(n.nw, "offdesign", design_path=d),
                Exception))
            n.conn["6"].set_attr(m=None)
            nets.solve(n.nw, "offdesign", design_path=d)
            compare(ctx, "after abort", ref[8], gist(n.nw), tol=1e-4)
    return Harness("part load", fn, sym=False, conc=1,
                   bounded="these histories", time_s=200)


def local():
    """single objects in the other mode"""
    def fn(ctx):
        np.random.seed(3)

        def dump(n):
            return gist(n.nw)

        with nets.scratch() as d, nets.quiet():
            n = plant()
            nets.solve(n.nw)
            first = dump(n)
            n.nw.save(d)
            # a component and a connection already in off-design, with the
            # own design point: same state
            for obj, off in (("cond", ["zeta2", "kA"]),
                             ("boiler", ["zeta"]), ("pump", ["P"])):
                n = plant()
                n.comp[obj].set_attr(offdesign=off)
                n.comp[obj].set_attr(local_offdesign=True, design_path=d)
                nets.solve(n.nw)
                ctx.true(f"local off-design[{obj}] converged",
                         bool(n.nw.converged))
                compare(ctx, f"local off-design[{obj}]", first, dump(n),
                        tol=1e-4)
                for k in n.comp[obj].design:
                    ctx.true(f"local off-design[{obj}].{k}",
                             not n.comp[obj].get_attr(k).is_set)
            n = plant()
            n.conn["7"].set_attr(local_offdesign=True, design_path=d)
            nets.solve(n.nw)
            ctx.true("local off-design[7] converged", bool(n.nw.converged))
            compare(ctx, "local off-design[7]", first, dump(n), tol=1e-4)
            ctx.true("local off-design[7].T", not n.conn["7"].T.is_set and
                     n.conn["7"].v.is_set)
            # objects that stay in design mode
            for obj in ("cond", "boiler", "pump"):
                n = plant()
                nets.solve(n.nw)
                n.comp[obj].set_attr(local_design=True)
                nets.solve(n.nw, "offdesign", design_path=d)
                ctx.true(f"local design[{obj}] converged",
                         bool(n.nw.converged))
                compare(ctx, f"local design[{obj}]", first, dump(n),
                        tol=1e-4)
                for k in n.comp[obj].design:
                    ctx.true(f"local design[{obj}].{k}",
                             n.comp[obj].get_attr(k).is_set)
            n = plant()
            nets.solve(n.nw)
            n.conn["7"].set_attr(local_design=True)
            nets.solve(n.nw, "offdesign", design_path=d)
            compare(ctx, "local design[7]", first, dump(n), tol=1e-4)
            ctx.true("local design[7].T", n.conn["7"].T.is_set and
                     not n.conn["7"].v.is_set)
    return Harness("single objects", fn, sym=False, conc=1,
                   bounded="these networks", time_s=200)


def own_point():
    """the own design point of an object"""
    def fn(ctx):
        np.random.seed(3)
        with nets.scratch() as d, nets.quiet():
            a, b = os.path.join(d, "a"), os.path.join(d, "b")
            n = plant()
            nets.solve(n.nw)
            n.nw.save(a)
            n.comp["boiler"].set_attr(pr=0.9)
            n.conn["7"].set_attr(T=32)
            nets.solve(n.nw)
            zeta = n.comp["boiler"].zeta.val
            v = n.conn["7"].v.val_SI
            n.nw.save(b)
            for way in ("before", "after"):
                n = plant()
                nets.solve(n.nw)
                if way == "after":
                    nets.solve(n.nw, "offdesign", design_path=a)
                n.comp["boiler"].set_attr(design_path=b)
                n.conn["7"].set_attr(design_path=b)
                nets.solve(n.nw, "offdesign", design_path=a)
                ctx.true(way + ".converged", bool(n.nw.converged))
                ctx.eq(way + ".zeta", n.comp["boiler"].zeta.val, zeta,
                       tol=1e-8)
                ctx.eq(way + ".v", n.conn["7"].v.val_SI, v, tol=1e-6)
                n.comp["boiler"].set_attr(design_path=None)
                n.conn["7"].set_attr(design_path=None)
                nets.solve(n.nw, "offdesign", design_path=a)
                ctx.eq(way + ".pr", n.comp["boiler"].pr.val, 0.95, tol=1e-4)
                ctx.eq(way + ".T", n.conn["7"].T.val, 35, tol=1e-4)
                nets.solve(n.nw, "offdesign", design_path=b)
                ctx.eq(way + ".other path", n.comp["boiler"].zeta.val, zeta,
                       tol=1e-8)
    return Harness("own design point", fn, sym=False, conc=1,
                   bounded="these networks", time_s=200)


def harnesses(tier):
    out = [conn_numbers(), conn_kinds(), conn_refs(), conn_fluids(),
           conn_rest()]
    out += [comp_params(k) for k in classes()]
    for i in range(len(CASES)):
        out += [offdesign_params(i), to_offdesign(i), to_design(i)]
    out += [local_without_path(), rereading(), part_load(), local(),
            own_point()]
    out += [at_design_point(k) for k in OFF]
    return out
