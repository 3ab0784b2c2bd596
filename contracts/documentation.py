"""C19: the documentation of a model shows the model (whole networks, bounded)."""
import os
import re

import numpy as np

from vc.runner import Harness

from . import nets

os.environ.setdefault("MPLBACKEND", "Agg")

TEXT = {"m": "mass flow", "v": "volumetric flow", "p": "pressure",
        "h": "enthalpy", "T": "temperature",
        "Td_bp": "temperature difference to boiling point",
        "vol": "specific volume", "x": "vapor mass fraction", "s": "entropy"}
DEFAULT = ("m", "p", "h", "T", "s")


# ------------------------------------------------------------------- reading
def plain(s):
    return s.replace(r"\_", "_").strip()


def tables(tex):
    """caption -> list of tables (header, {row: {column: cell}})"""
    out = {}
    for cap, body in re.findall(
            r"\\begin\{(?:table|longtable)\}.*?\\caption\{(.*?)\}(.*?)"
            r"\\end\{(?:table|longtable)\}", tex, re.S):
        lines = [x.rsplit(r"\\", 1)[0] for x in body.split("\n")
                 if x.rstrip().endswith(r"\\")]
        lines = [x for x in lines if " & " in x]
        head = [plain(x) for x in lines[0].split(" & ")][1:]
        rows = {}
        for ln in lines[1:]:
            cells = [x.strip() for x in ln.split(" & ")]
            if cells[0] in ("", "label") or len(cells) != len(head) + 1:
                continue
            rows[plain(cells[0])] = dict(zip(head, cells[1:]))
        out.setdefault(plain(cap), []).append((head, rows))
    return out


def name_of(header):
    """parameter a column is about (without unit and equation)"""
    return re.sub(r" \(\\ref\{.*?\}\)$", "", header).split(" in $")[0]


def columns(table):
    head, rows = table
    return {name_of(h): {r: c[h] for r, c in rows.items()} for h in head}


def cell(text):
    """(value or None, bold, italic)"""
    bold, it = text.startswith(r"\bftab"), text.startswith(r"\iftab")
    t = re.sub(r"^\\[bi]ftab *", "", text)
    if t in ("-", "nan"):
        return None, bold, it, 0
    dec = len(t.split(".")[1]) if "." in t else 0
    return float(t.replace(",", "")), bold, it, dec


def same(ctx, tag, text, val):
    """the cell shows the number"""
    got, _, _, dec = cell(text)
    if val is None or np.isnan(val):
        ctx.true(f"{tag} is empty", got is None)
    elif got is None:
        ctx.true(f"{tag} is shown", False)
    else:
        tol = 0.51 * 10 ** -dec + 1e-9 * abs(val)
        ctx.true(f"{tag} shows the value", abs(got - val) <= tol)


def unit_of(header):
    m = re.search(r"\\unitfrac\[\]\{(.*?)\}\{(.*?)\}", header)
    if m:
        return f"{m[1]} / {m[2]}".replace(r"^\circ ", "")
    m = re.search(r"\\unit\[\]\{(.*?)\}", header)
    return m and m[1].replace(r"^\circ ", "").replace("^", "")


# ------------------------------------------------------------------- writing
def document(nw, **fmt):
    from tespy.tools import document_model
    with nets.scratch() as d, nets.quiet():
        path = os.path.join(d, "a", "report")
        document_model(nw, path=path, filename="doc.tex", fmt=fmt)
        with open(os.path.join(path, "doc.tex")) as f:
            tex = f.read()
        figs = {os.path.relpath(os.path.join(a, b), path)
                for a, _, c in os.walk(path) for b in c}
        return tex, figs, sorted(os.listdir(d))


def clean(tex):
    return re.sub(r"Documentation generated:.*?\n", "", tex)


# ------------------------------------------------------------------- judging
def marks(ctx, tag, text, spec, var=False, results=True):
    _, bold, it, _ = cell(text)
    if results:
        ctx.true(f"{tag} bold if specified", bold == (spec and not var))
    ctx.true(f"{tag} italic if variable", it == var)


def connections(ctx, nw, tex, tabs, results):
    conns = nw.conns["object"]
    cap = ("Connection specifications and results" if results else
           "Specified connection parameters")
    res = nw.results["Connection"]
    table = tabs[cap][0]
    col = columns(table)
    used = {p for p in TEXT for c in conns if c.get_attr(p).is_set}
    for p in TEXT:
        want = p in used or (results and p in DEFAULT)
        ctx.true(f"column {p}", (p in col) == want)
        ctx.true(f"equation {p}",
                 (r"\label{eq:Connection_%s}" % TEXT[p] in tex) ==
                 (p in used))
        if p not in col:
            continue
        head = [h for h in table[0] if name_of(h) == p][0]
        u = nw.get_attr(("T" if p == "Td_bp" else p) + "_unit")
        ctx.true(f"unit {p}", unit_of(head) == u.replace("^", ""))
        for c in conns:
            s = c.get_attr(p).is_set
            if c.label not in col[p]:
                ctx.true(f"row {c.label}", not results and not any(
                    c.get_attr(q).is_set for q in TEXT))
                continue
            t = col[p][c.label]
            same(ctx, f"{c.label}.{p}", t,
                 res.loc[c.label, p] if results or s else None)
            marks(ctx, f"{c.label}.{p}", t, s, results=results)
    # composition
    if "Specified fluids" in tabs:
        col = columns(tabs["Specified fluids"][0])
    else:
        col = {}
    for f in nw.all_fluids:
        given = [c for c in conns if f in c.fluid.is_set]
        ctx.true(f"equation {f}",
                 (r"\label{eq:Connection_%s}" % f in tex) == bool(given))
        if not results:
            ctx.true(f"column {f}", (f in col) == bool(given))
        for c in conns:
            if f in col and c.label in col[f]:
                s = f in c.fluid.is_set
                t = col[f][c.label]
                v = res.loc[c.label, f]
                same(ctx, f"{c.label}.{f}", t, v if results or s else None)
                if given:
                    marks(ctx, f"{c.label}.{f}", t, s, results=results)
            else:
                ctx.true(f"{c.label}.{f} listed", not results
                         and f not in c.fluid.is_set)


def references(ctx, nw, tabs):
    for p in ("m", "p", "h", "T", "v"):
        want = {c.label: c.get_attr(p + "_ref").ref
                for c in nw.conns["object"] if c.get_attr(p + "_ref").is_set}
        got = tabs.get(f"Specified reference values for {TEXT[p]}")
        ctx.true(f"references {p}", bool(got) == bool(want))
        if not got or not want:
            continue
        head, rows = got[0]
        ctx.true(f"references {p} rows", set(rows) == set(want))
        dcol = [h for h in head if h.startswith("delta in")][0]
        ctx.true(f"references {p} unit", unit_of(dcol) == nw.get_attr(
            p + "_unit"))
        for lb in set(rows) & set(want):
            r = want[lb]
            ctx.true(f"reference {lb}.{p}",
                     plain(rows[lb]["reference"]) == r.obj.label)
            ctx.eq(f"factor {lb}.{p}", float(rows[lb]["factor in -"]),
                   float(r.factor))
            ctx.eq(f"delta {lb}.{p}", float(rows[lb][dcol]), float(r.delta))


def components(ctx, nw, tex, tabs, results):
    from tespy.tools.data_containers import ComponentProperties as CP
    from tespy.tools.data_containers import SimpleDataContainer as SD
    for kind in nw.comps["comp_type"].unique():
        comps = nw.comps[nw.comps["comp_type"] == kind]["object"].tolist()
        eqs = set()
        for cp in comps:
            eqs |= set(cp.constraints)
            for k, d in cp.parameters.items():
                on = getattr(d, "is_set", False) or getattr(
                    d, "is_var", False)
                if on and getattr(d, "latex", None) is not None:
                    eqs.add(k)
        must = set().union(*(cp.constraints for cp in comps))
        # an equation may be written in several parts
        got = {next((m for m in must if g.startswith(m + "_")), g)
               for g in re.findall(r"\\label\{eq:%s_(.*?)\}" % kind, tex)}
        simple = {k for k, d in comps[0].parameters.items()
                  if isinstance(d, SD) and getattr(d, "func", None)}
        ctx.true(f"equations of {kind}", got - simple == eqs - simple)
        ctx.true(f"equations of {kind} flags", got & simple == eqs & simple)
        shown = {}
        for tb in tabs.get(f"Parameters of components of type {kind}", []):
            shown.update(columns(tb))
        for cap, tb in tabs.items():
            g = cap.replace("Parametergroup ", "")
            if cap.startswith("Parametergroup") and g in comps[0].parameters:
                for x in tb:
                    if set(x[1]) == {cp.label for cp in comps}:
                        shown.update(columns(x))
        for cp in comps:
            for k, d in cp.parameters.items():
                if not isinstance(d, CP):
                    if (getattr(d, "is_set", False) and not
                            isinstance(d, SD) and d.func is not None):
                        ctx.true(f"{cp.label}.{k} applied",
                                 shown.get(k, {}).get(cp.label) == "True")
                    continue
                spec, var = bool(d.is_set), bool(d.is_var)
                v = nw.results[kind].loc[cp.label, k]
                if not results and not spec and not var:
                    v = np.nan
                t = shown.get(k, {}).get(cp.label, "-")
                same(ctx, f"{cp.label}.{k}", t, v)
                if t != "-":
                    marks(ctx, f"{cp.label}.{k}", t, spec, var, results)


def busses(ctx, nw, tex, tabs, results):
    for lb, b in nw.busses.items():
        cap = f"Results overview for bus {lb}"
        ctx.true(f"bus {lb}", cap in tabs)
        if cap not in tabs:
            continue
        ctx.true(f"bus {lb} total",
                 ("Specified total value of energy flow" in tex) ==
                 any(x.P.is_set for x in nw.busses.values()))
        if b.P.is_set:
            vals = [float(x.replace(",", "")) for x in re.findall(
                r"_\\mathrm\{bus\} = \\unit\[(.*?)\]\{W\}", tex)]
            ctx.true(f"bus {lb} total value",
                     any(abs(x - b.P.val) <= 0.006 for x in vals))
        head, rows = tabs[cap][0]
        names = {cp.label for cp in b.comps.index}
        ctx.true(f"bus {lb} rows",
                 set(rows) == names | ({"total"} if results else set()))
        base = {cp.label: b.comps.loc[cp, "base"] for cp in b.comps.index}
        for r in names & set(rows):
            c = rows[r]
            eq = c.get(r"$\dot{E}_\mathrm{bus}$", "-")
            if eq != "-":
                ctx.true(f"bus {lb} {r} base", (r"\frac" in eq) ==
                         (base[r] == "bus"))
        if not results:
            for cp in b.comps.index:
                ch = b.comps.loc[cp, "char"]
                t = rows[cp.label].get(r"$\eta$", "-")
                if np.all(ch.y == ch.y[0]) and t != "-":
                    same(ctx, f"bus {lb} {cp.label} efficiency", t,
                         float(ch.y[0]))
            continue
        res = nw.results[lb]
        for key, h in (("component value", r"$\dot{E}_\mathrm{comp,result}$"),
                       ("bus value", r"$\dot{E}_\mathrm{bus,result}$"),
                       ("efficiency", r"$\eta_\mathrm{result}$")):
            for r in names & set(rows):
                same(ctx, f"bus {lb} {r} {key}", rows[r][h],
                     res.loc[r, key])
            if key != "efficiency" and "total" in rows:
                same(ctx, f"bus {lb} total {key}", rows["total"][h],
                     res[key].sum())


def judge(ctx, nw, tex, figs, results=True):
    tabs = tables(tex)
    connections(ctx, nw, tex, tabs, results)
    references(ctx, nw, tabs)
    components(ctx, nw, tex, tabs, results)
    busses(ctx, nw, tex, tabs, results)
    for u in nw.user_defined_eq.values():
        ctx.true(f"user defined equation {u.label}", u.latex["equation"]
                 in tex)
    labels = set(re.findall(r"\\label\{(.*?)\}", tex))
    for r in set(re.findall(r"\\ref\{(.*?)\}", tex)):
        ctx.true(f"{r} exists", r in labels)
    pics = set(re.findall(r"\\includegraphics\[.*?\]\{(.*?)\}", tex))
    for p in pics:
        ctx.true(f"{p} exists", p in figs)
    for cp in nw.comps["object"]:
        for k, d in cp.parameters.items():
            if (getattr(d, "is_set", False) and getattr(d, "char_func", None)
                    is not None and d.func is not None):
                ctx.true(f"figure of {cp.label}.{k}", any(
                    k in p and cp.label.replace(" ", "_") in p
                    for p in pics))


def state(nw):
    s = {}
    for c in nw.conns["object"]:
        s[c.label] = [(p, c.get_attr(p).val_SI, c.get_attr(p).is_set)
                      for p in TEXT], dict(c.fluid.val), set(c.fluid.is_set)
    for cp in nw.comps["object"]:
        s[cp] = [(k, getattr(d, "val", None), getattr(d, "is_set", None))
                 for k, d in cp.parameters.items()]
    for lb, b in nw.busses.items():
        s["bus", lb] = b.P.val, b.P.is_set, b.comps.drop(
            columns="char").to_dict()
    return repr(s)


def whole(name, make, mode="design"):
    def fn(ctx):
        np.random.seed(5)
        nw = make()
        for d in () if mode == "design" else (1,):
            with nets.scratch() as path:
                nets.solve(nw)
                nw.save(path)
                nets.solve(nw, "offdesign", design_path=path)
        if mode == "design":
            nets.solve(nw)
        before = state(nw)
        res = {k: t.copy() for k, t in nw.results.items()}
        first, figs, there = document(nw)
        ctx.true("only its folder", there == ["a"])
        ctx.true("complete", r"\begin{document}" in first
                 and first.rstrip().endswith(r"\end{document}"))
        judge(ctx, nw, first, figs)
        # specifications only
        tex, figs, _ = document(nw, include_results=False)
        judge(ctx, nw, tex, figs, results=False)
        # own selection and format, which holds for this report only
        mine = {"latex_body": False, "draft": False, "Connection": {
            "p": {"float_fmt": "{:,.5f}"}, "params": ["m", "p"],
            "fluid": {"float_fmt": "{:.5f}"}}}
        keep = repr(mine)
        tex, _, _ = document(nw, **mine)
        ctx.true("format kept", repr(mine) == keep)
        ctx.true("no body", r"\begin{document}" not in tex
                 and r"\end{document}" not in tex)
        col = columns(tables(tex)["Connection specifications and results"][0])
        used = {p for p in TEXT for c in nw.conns["object"]
                if c.get_attr(p).is_set}
        ctx.true("selection", set(col) - {"phase"} == used | {"m", "p"})
        for c in nw.conns["object"]:
            t = col["p"][c.label]
            ctx.true("format", cell(t)[3] == 5)
            same(ctx, f"{c.label}.p", t, nw.results["Connection"].loc[
                c.label, "p"])
        again, _, _ = document(nw)
        ctx.true("again", clean(again) == clean(first))
        ctx.true("network kept", state(nw) == before)
        for k, t in res.items():
            ctx.true(f"results kept[{k}]", t.equals(nw.results[k]))
    return Harness(f"documentation[{name}]", fn, sym=False, conc=1,
                   bounded="this network, three formats")


# ------------------------------------------------------------------ networks
def plant(cone=False):
    """labels with blanks and underscores, references, busses"""
    from tespy.tools.characteristics import CharLine
    n = nets.Net(v_unit="m3 / h")
    n.add("Source", "so urce")
    n.add("Pump", "pu mp", eta_s=0.8, design=["eta_s"],
          offdesign=["eta_s_char"])
    n.add("SimpleHeatExchanger", "h_e", pr=0.95)
    n.add("Turbine", "tur_bine", eta_s=0.9, design=["eta_s"],
          offdesign=["eta_s_char"])
    n.add("Sink", "sink")
    n.chain("so urce", "pu mp", "h_e", "tur_bine", "sink", prefix="c_")
    c = n.conn
    c["c_1"].set_attr(m=2, p=1, T=20, fluid={"water": 1})
    c["c_2"].set_attr(p=n.N.Ref(c["c_1"], 15, 5))
    c["c_3"].set_attr(T=500)
    c["c_4"].set_attr(p=0.5)
    if cone:
        n.comp["tur_bine"].set_attr(offdesign=["cone", "eta_s_char"])
        c["c_2"].set_attr(p=None)
        c["c_2"].set_attr(p=20, design=["p"])
    b = n.N.Bus("power")
    line = CharLine(x=[0, 1, 2], y=[0.8, 0.9, 0.95])
    b.add_comps({"comp": n.comp["tur_bine"], "char": line},
                {"comp": n.comp["pu mp"], "char": line, "base": "bus"})
    h = n.N.Bus("heat")
    h.add_comps({"comp": n.comp["h_e"], "char": 0.9})
    n.nw.add_busses(b, h)
    return n.nw


def condensers():
    """condensers with and without subcooling"""
    n = nets.Net()
    for i, sub in enumerate((False, True)):
        for k in ("hot", "cold"):
            n.add("Source", f"{k} in {i}")
            n.add("Sink", f"{k} out {i}")
        n.add("Condenser", f"condenser {i}", pr1=1, pr2=0.98,
              subcooling=sub)
        for j, k in enumerate(("hot", "cold")):
            n.link(f"{k}{i}1", f"{k} in {i}", "out1", f"condenser {i}",
                   f"in{j + 1}")
            n.link(f"{k}{i}2", f"condenser {i}", f"out{j + 1}",
                   f"{k} out {i}", "in1")
        c = n.conn
        c[f"hot{i}1"].set_attr(m=2, p=0.5, T=90, fluid={"water": 1})
        c[f"cold{i}1"].set_attr(p=2, T=20, fluid={"water": 1})
        c[f"cold{i}2"].set_attr(T=40)
        if sub:
            c[f"hot{i}2"].set_attr(Td_bp=-5)
    return n.nw


def flows():
    """references of flow and enthalpy, bus with total, own equation"""
    from tespy.tools.helpers import UserDefinedEquation
    from tespy.tools.characteristics import CharLine
    n = nets.Net(v_unit="m3 / h", m_unit="t / h")
    n.add("Source", "s1")
    n.add("Source", "s2")
    n.add("Source", "s3")
    n.add("SimpleHeatExchanger", "heater", pr=0.9)
    n.add("SimpleHeatExchanger", "cooler", pr=0.8, Q=-2e4)
    n.add("Valve", "valve")
    n.add("Sink", "k1")
    n.add("Sink", "k2")
    n.add("Sink", "k3")
    for a, b, d, p in (("s1", "heater", "k1", "a"),
                       ("s2", "cooler", "k2", "b"),
                       ("s3", "valve", "k3", "c")):
        n.link(p + "1", a, "out1", b, "in1")
        n.link(p + "2", b, "out1", d, "in1")
    c, R = n.conn, n.N.Ref
    c["a1"].set_attr(p=4, T=60, fluid={"water": 1})
    c["a2"].set_attr(h=R(c["a1"], 1, 45))
    c["b1"].set_attr(p=3, T=90, fluid={"N2": 0.76, "O2": 0.24},
                     m=R(c["a1"], 0.5, 1))
    c["c1"].set_attr(p=9, T=R(c["a1"], 1, -20), fluid={"water": 1},
                     v=R(c["a1"], 2, 3))
    b = n.N.Bus("heat", P=5e4)
    b.add_comps({"comp": n.comp["heater"], "char": 0.96})
    n.nw.add_busses(b)

    def f(u):
        return u.conns[0].p.val_SI - u.conns[1].p.val_SI / 2

    def df(u):
        for c, s in zip(u.conns, (1, -0.5)):
            if c.p.is_var:
                u.jacobian[c.p.J_col] = s
    n.nw.add_ude(UserDefinedEquation(
        "half it", f, df, [c["c2"], c["b2"]],
        latex={"equation": r"0 = p_c - \frac{p_b}{2}",
               "lines": [CharLine(x=[0, 1], y=[1, 2])], "maps": []}))
    return n.nw


def pipes():
    """groups and variables, two components of a class"""
    n = nets.Net()
    n.add("Source", "source")
    n.add("Pipe", "first", D="var", L=100, ks=1e-5, Q=0)
    n.add("Pipe", "second", Tamb=10, kA=100, pr=0.97)
    n.add("Pipe", "third", D=0.2, pr=0.99, Q=-1e3)
    n.add("Sink", "sink")
    n.chain("source", "first", "second", "third", "sink")
    n.conn["1"].set_attr(m=10, p=5, T=50, fluid={"water": 1})
    n.conn["2"].set_attr(p=4.9)
    return n.nw


def many():
    """a table over several pages"""
    n = nets.Net()
    names = ["source"] + [f"v{i}" for i in range(63)] + ["sink"]
    n.add("Source", "source")
    n.add("Sink", "sink")
    for k in names[1:-1]:
        n.add("Valve", k, pr=0.99)
    n.chain(*names)
    n.conn["1"].set_attr(m=1, p=9, T=50, fluid={"water": 1})
    return n.nw


def harnesses(tier):
    out = [whole("cone, off-design", lambda: plant(cone=True), "off"),
           whole("condensers", condensers),
           whole("plant", plant), whole("plant, off-design", plant, "off"),
           whole("flows", flows), whole("pipes", pipes),
           whole("many", many)]
    for k in ("heat exchanger", "mixing", "combustion", "engine",
              "fuel cell", "electrolyzer", "drum", "solar", "gas turbine",
              "split and merge"):
        out.append(whole(k, lambda k=k: nets.build(k).nw))
    out.append(whole("heat exchanger, off-design",
                     lambda: nets.build("heat exchanger").nw, "off"))
    return out
