"""Test bench: a real component between real connections, with every state
variable a symbol (or a float in concrete runs)."""
from __future__ import annotations

import math

import numpy as np

from . import term as T
from .engine import ConcCtx, Sym, SymBool, Unsupported, is_sym
from .fluid import FakeWrapper


def imports():
    import tespy.components as C
    import tespy.connections as N
    from tespy.tools import characteristics as K
    return C, N, K


def char_line(ctx, name):
    """A characteristic line: uninterpreted function / concrete CharLine."""
    from tespy.tools.characteristics import CharLine

    class SymChar(CharLine):
        def evaluate(self, x):
            if is_sym(x):
                return ctx.fn("char." + name, x, positive=True)
            return CharLine.evaluate(self, x)

    k = (sum(map(ord, name)) % 7) / 10
    line = SymChar(x=[-50, 0.2, 0.9 + k / 10, 3, 5000],
                   y=[0.55 + k / 10, 0.6 + k / 10, 0.9, 1.25 + k / 5, 1.3])
    return line


class State:
    """Names and containers of all variables of a bench."""

    def __init__(self):
        self.vars = []       # dicts: name, get, set, col, flag, kind, typ


class Bench:
    PTYP = (1e5, 2e6)
    HTYP = (2e5, 1.2e6)
    MTYP = (0.5, 8.0)

    def __init__(self, ctx, cls, kw=None, fluids=("H2O",), share=None,
                 same_branch=False, flags="sym", n_in=None, n_out=None,
                 typ=None, neg_m=False, mixing_rule="ideal",
                 fluid_vars=False, sep_fluids=False, share_fluid=None,
                 fluidsets=None, xtyp=None,
                 start_concrete=False):
        C, N, K = imports()
        self.ctx = ctx
        self.fluids = tuple(fluids)
        self.typ = typ or {}
        if isinstance(cls, str):
            from tespy.components.component import component_registry as R
            cls = getattr(C, cls, None) or R.items[cls]
        self.comp = cls("comp", **(kw or {}))
        self.inl, self.outl = [], []
        for i, name in enumerate(self.comp.inlets()):
            s = C.Source(f"src{i}")
            c = N.Connection(s, "out1", self.comp, name, label=f"i{i}")
            self.inl.append(c)
        for i, name in enumerate(self.comp.outlets()):
            s = C.Sink(f"snk{i}")
            c = N.Connection(self.comp, name, s, "in1", label=f"o{i}")
            self.outl.append(c)
        self.conns = self.inl + self.outl
        for c in self.conns:
            c.mixing_rule = None if len(self.fluids) == 1 else mixing_rule
            for prop in ("m", "p", "h", "T", "v", "vol", "s", "x", "Td_bp"):
                dc = c.get_attr(prop)
                dc.unit = UNIT[prop]
        share = share or {}
        for o, i in share.items():
            self.outl[o].m = self.inl[i].m
            if share_fluid is None:
                self.outl[o].fluid = self.inl[i].fluid
        for o, i in (share_fluid or {}).items():
            self.outl[o].fluid = self.inl[i].fluid
        if same_branch:
            for c in self.inl[1:]:
                c.m = self.inl[0].m
                for o, i in share.items():
                    self.outl[o].m = self.inl[0].m
        self.fluidsets = fluidsets or {}
        self.fluid_vars = fluid_vars
        for c in self.conns:
            fl = self.fluidsets.get(c.label, self.fluids)
            for f in fl:
                if f not in c.fluid.wrapper:
                    c.fluid.wrapper[f] = FakeWrapper(f)
                    c.fluid.engine[f] = FakeWrapper
                    c.fluid.back_end[f] = None
        self.vars = []
        self.col = 0
        self.flags = flags
        self._flagcache = {}
        self.comp.inl, self.comp.outl = self.inl, self.outl
        self.comp.num_i, self.comp.num_o = len(self.inl), len(self.outl)
        self._assign_cols()
        self.set_state("", concrete=start_concrete)

    # ---------------------------------------------------------------- state
    def _assign_cols(self):
        seen = {}
        for c in self.conns:
            for prop in ("m", "p", "h"):
                dc = c.get_attr(prop)
                if id(dc) in seen:
                    continue
                seen[id(dc)] = True
                name = f"{c.label}.{prop}"
                dc.J_col = self.col
                self.col += 1
                self.vars.append(dict(name=name, kind=prop, dc=dc,
                                      col=dc.J_col, conn=c))
                dc.is_var = self._flag(name)
            if id(c.fluid) not in seen:
                seen[id(c.fluid)] = True
                c.fluid.J_col = {}
                c.fluid.is_var = set()
                fl = self.fluidsets.get(c.label, self.fluids)
                if self.fluid_vars and len(fl) > 1:
                    for f in fl:
                        c.fluid.is_var.add(f)
                        c.fluid.J_col[f] = self.col
                        self.vars.append(dict(
                            name=f"{c.label}.x[{f}]", kind="x", dc=c.fluid,
                            col=self.col, conn=c, fluid=f))
                        self.col += 1
        self.ncols = self.col

    def _flag(self, name):
        if self.flags == "sym":
            f = self.ctx.flag(name + ".is_var")
            return f
        return True

    def typical(self, name, kind):
        if name in self.typ:
            return self.typ[name]
        return {"m": self.MTYP, "p": self.PTYP, "h": self.HTYP,
                "x": (0.1, 0.4)}[kind]

    def set_state(self, tag, concrete=False):
        """Assign fresh values to all state variables."""
        ctx = self.ctx
        if concrete and ctx.mode == "sym":
            ctx = ConcCtx(7)
        for v in self.vars:
            if v["kind"] == "par":
                continue
            name = v["name"] + tag
            t = self.typical(v["name"], v["kind"])
            if v["kind"] == "x":
                val = ctx.real(name, 0, 1, typ=t)
                v["dc"].val[v["fluid"]] = val
            else:
                if v["kind"] == "p":
                    val = ctx.real(name, 0, strict=True, typ=t)
                else:
                    val = ctx.real(name, typ=t)
                v["dc"].val_SI = val
            v["val"] = val
        for c in self.conns:
            fl = self.fluidsets.get(c.label, self.fluids)
            if len(fl) == 1:
                c.fluid.val = {fl[0]: 1.0}
                c.fluid.is_set = {fl[0]}
            else:
                for f in fl:
                    if f not in c.fluid.val or not self.fluid_vars:
                        c.fluid.val[f] = ctx.real(
                            f"{self._fl_owner(c)}.x[{f}]" + tag, 0, 1,
                            typ=(0.1, 0.4))
            c.build_fluid_data()
            c.T.val_SI = self._start_T(c, tag, ctx)

    def _fl_owner(self, c):
        for d in self.conns:
            if d.fluid is c.fluid:
                return d.label
        return c.label

    def _start_T(self, c, tag, ctx):
        # only a start value for iterations; never a function of p and h
        if ctx.mode == "sym":
            return ctx.real(f"{c.label}.T0{tag}", 0, strict=True)
        return 350.0

    # ----------------------------------------------------------- parameters
    def par(self, key, typ=(0.5, 1.5), lo=None, hi=None, var=False,
            design=None):
        """Give parameter `key` a symbolic value and mark it as set."""
        data = self.comp.get_attr(key)
        data.is_set = True
        if hasattr(data, "val"):
            data.val = self.ctx.real("par." + key, lo, hi, typ=typ)
            if hasattr(data, "val_SI"):
                data.val_SI = data.val
        if var:
            data.is_var = True
            self.vars.append(dict(name="par." + key, kind="par", dc=data,
                                  col=None, conn=None, val=data.val))
        return data

    def design_values(self, keys=()):
        ctx = self.ctx
        for c in self.conns:
            for prop, typ in (("m", (1, 5)), ("p", (1e5, 1e6)),
                              ("h", (2e5, 1e6)), ("v", (0.01, 0.2)),
                              ("vol", (0.01, 0.05)), ("T", (300, 400))):
                c.get_attr(prop).design = ctx.real(
                    f"{c.label}.{prop}.design", 0, strict=True, typ=typ)
        for k, typ in dict(keys).items():
            self.comp.get_attr(k).design = ctx.real(
                f"par.{k}.design", 0, strict=True, typ=typ)

    def chars(self, *keys):
        for k in keys:
            d = self.comp.get_attr(k)
            d.char_func = char_line(self.ctx, k)
            d.is_set = True

    # ------------------------------------------------------------- running
    def preprocess(self):
        self.comp.preprocess(self.ncols)
        if self.ctx.mode == "sym":
            n = self.comp.num_eq
            self.comp.residual = np.zeros(n, dtype=object)
        for v in self.vars:
            if v["kind"] == "par":
                v["col"] = v["dc"].J_col

    def filter(self, mode):
        if mode == "sym" and self.ctx.mode == "sym":
            return SymFilter(self.ctx)
        return np.zeros(self.ncols + 20, dtype=bool)

    def solve(self, filt=None):
        self.comp.solve(self.filter("none") if filt is None else filt)
        return list(self.comp.residual)


class SymFilter:
    def __init__(self, ctx):
        self.ctx = ctx

    def __getitem__(self, k):
        return self.ctx.flag(f"filter[{k}]")


UNIT = {"m": "kg / s", "p": "Pa", "h": "J / kg", "T": "K", "v": "m3 / s",
        "vol": "m3 / kg", "s": "J / kgK", "x": "-", "Td_bp": "K"}


def fd_jacobian(bench, steps=None):
    """Concrete mode: central differences of the residual vector."""
    steps = steps or {"m": 1e-4, "p": 5.0, "h": 5.0, "x": 1e-4}
    out = {}
    comp = bench.comp

    def put(v, x):
        if v["kind"] == "x":
            v["dc"].val[v["fluid"]] = x
            for c in bench.conns:
                c.build_fluid_data()
        elif v["kind"] == "par":
            v["dc"].val = x
        else:
            v["dc"].val_SI = x

    jac = dict(comp.jacobian)
    for v in bench.vars:
        x0 = v["val"]
        d = steps.get(v["kind"]) or max(abs(x0) * 1e-4, 1e-9)
        acc = None
        for k, w in ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)):
            put(v, x0 + k * d)
            r = np.array([float(y) for y in bench.solve()])
            acc = w * r if acc is None else acc + w * r
        put(v, x0)
        out[v["name"]] = acc / (12 * d)
    bench.solve()
    comp.jacobian = jac
    return out


def check_jacobian(ctx, make, label, tol=5e-4, complete_x=True,
                   assume=None, free_x=None):
    """Contract: every Jacobian entry is the partial derivative of its
    residual; a variable without entry does not occur in the residual.

    make() builds the bench (component, connections, specifications).
    free_x: name of a variable; in rows which depend on it the derivatives
    to mass fractions are not part of the contract."""
    bench = make(start_concrete=True, flags=True)
    comp = bench.comp
    bench.preprocess()
    comp.it = 0
    bench.solve()                       # first iteration, some other state
    bench.set_state("'")                # later iteration: arbitrary state
    for v in bench.vars:
        if v["kind"] == "par":
            if ctx.mode == "conc":
                v["val"] = ctx.real(v["name"] + "'", typ=(
                    v["val"] * 0.9, v["val"] * 1.1))
            else:
                v["val"] = ctx.real(v["name"] + "'", 0, strict=True)
            v["dc"].val = v["val"]
    if assume:
        assume(bench)
    comp.it = 1
    res = bench.solve()
    fd = None
    if ctx.mode == "conc":
        jac = dict(comp.jacobian)
        fd = fd_jacobian(bench)
        comp.jacobian = jac
    rows = range(len(res))
    cols = {v["col"]: v for v in bench.vars}
    bad = [key for key in comp.jacobian
           if key[0] not in rows or key[1] not in cols]
    ctx.true(f"{label}:entries-in-range", not bad)
    free = set()
    for v in bench.vars:
        if free_x and v["name"] == free_x:
            for r in rows:
                if ctx.mode == "sym":
                    d = ctx.diff(res[r], v["val"])
                    if is_sym(d) and (d.t.op != "c" or d.t.val != 0):
                        free.add(r)
                elif fd[v["name"]][r] != 0:
                    free.add(r)
    for v in bench.vars:
        for r in rows:
            entry = comp.jacobian.get((r, v["col"]))
            name = f"{label}:d[{r}]/d({v['name']})"
            if entry is None and v["kind"] == "x" and not complete_x:
                continue
            if v["kind"] == "x" and r in free:
                continue
            if ctx.mode == "sym":
                exact = ctx.diff(res[r], v["val"])
                ctx.eq(name, 0.0 if entry is None else entry, exact)
            else:
                exact = fd[v["name"]][r]
                e = 0.0 if entry is None else entry
                x = abs(v["val"]) or 1.0
                mag = max([abs(fd[w["name"]][r] * (w["val"] or 1))
                           for w in bench.vars] + [1e-12]) / x
                ctx.eq(name, e, exact, tol=tol, scale=mag)


def check_guards(ctx, make, label, pairs=True):
    """Contract (frame): a fixed variable gets no entry, a converged
    (filtered) one may be skipped, and neither changes any other entry."""
    ref = None
    bench = make(start_concrete=True, flags=True)
    n = len([v for v in bench.vars if v["kind"] in "mph"])
    vecs = [()] + [((i, s),) for i in range(n) for s in ("fix", "filt")]
    if pairs and n <= 7:
        for kind in ("fix", "filt"):
            vecs += [tuple((i, kind) for i in range(n) if k >> i & 1)
                     for k in range(3, 2 ** n)]
    elif pairs:
        vecs += [((i, k1), (j, k2)) for i in range(n)
                 for j in range(i + 1, n) for k1 in ("fix", "filt")
                 for k2 in ("fix", "filt")]
    vecs += [tuple((i, "fix") for i in range(n))]
    seed = ctx.rng.random()
    for vec in vecs:
        st = dict(vec)
        ctx.rng.seed(seed)
        bench = make(start_concrete=True, flags=True)
        filt = np.zeros(bench.ncols + 20, dtype=bool)
        vs = [v for v in bench.vars if v["kind"] in "mph"]
        for i, v in enumerate(vs):
            if st.get(i) == "fix":
                v["dc"].is_var = False
                v["dc"].J_col = 100000 + i          # poison
            elif st.get(i) == "filt":
                filt[v["col"]] = True
        bench.preprocess()
        bench.comp.it = 0
        res = bench.solve(filt)
        jac = dict(bench.comp.jacobian)
        if ref is None:
            ref, ref_res = jac, res
            cols = {v["col"]: v["val"] for v in bench.vars}
            continue
        fixed = {vs[i]["col"] for i, s in vec if s == "fix"}
        filtd = {vs[i]["col"] for i, s in vec if s == "filt"}
        desc = ",".join(vs[i]["name"] + ":" + s for i, s in vec[:3])
        stray = [k for k in jac if k[1] >= 100000 or k[1] in fixed]
        ctx.true(f"{label}:no-entry-for-fixed[{desc}]", not stray)
        rows = list(range(len(ref_res)))
        if len(res) != len(ref_res):
            # equations without a variable are dropped: same residual value
            rows = [min(range(len(res)), default=None,
                        key=lambda j: abs(res[j] - r)) for r in ref_res]
            rows = [j if j is not None and abs(res[j] - r) <= 1e-9 * max(
                1.0, abs(r)) else None for j, r in zip(rows, ref_res)]
        for k0, val in ref.items():
            if k0[1] in fixed:
                continue
            k = (rows[k0[0]], k0[1])
            if k[1] in filtd and k not in jac:
                continue
            x = abs(cols[k[1]]) or 1.0
            mag = max(abs(w * cols[kk[1]]) for kk, w in ref.items()
                      if kk[0] == k0[0])
            ok = k in jac and (jac[k] == val or abs(jac[k] - val) <=
                               1e-4 * max(abs(val), mag / x))
            ctx.true(f"{label}:entry-kept{k}[{desc}]", ok)
