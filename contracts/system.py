"""C12: assembly of the system of equations, Newton step, verdict."""
import itertools

import numpy as np
import pandas as pd

from vc.engine import is_sym
from vc.runner import Harness

from . import nets

CONV = 1e-3


def network(ctx):
    from tespy.networks import Network
    nw = Network(iterinfo=False)
    nw.iter = 0
    nw.lin_dep = False
    nw.use_cuda = False
    nw.variables_dict = {}
    return nw


class Stub:
    """component or connection by its contract: solve() leaves residual and
    derivatives of its num_eq equations"""

    def __init__(self, ctx, label, num_eq, cols, empty=False):
        self.ctx, self.label, self.num_eq = ctx, label, num_eq
        self.cols, self.empty = cols, empty
        self.it = 0
        self.residual = np.zeros(num_eq)
        self.jacobian = {}
        self.filters = []
        self.state = 0

    def solve(self, increment_filter):
        self.filters.append(increment_filter)
        self.state += 1
        n = self.state
        self.residual = np.array([self.ctx.real(
            f"{self.label}.r{k}@{n}", typ=(-1, 1))
            for k in range(self.num_eq)], dtype=object if
            self.ctx.mode == "sym" else float)
        if not self.empty:
            for k in range(self.num_eq):
                for c in self.cols[k]:
                    self.jacobian[k, c] = self.ctx.real(
                        f"{self.label}.d{k},{c}@{n}", typ=(-1, 1))

    def rows(self):
        return [(self.residual[k], {c: v for (r, c), v in
                                    self.jacobian.items() if r == k})
                for k in range(self.num_eq)]


class StubBus:
    def __init__(self, ctx, label, is_set, cols):
        from tespy.tools.data_containers import SimpleDataContainer
        self.ctx, self.label, self.cols = ctx, label, cols
        self.P = SimpleDataContainer(val=0.0, is_set=is_set)
        self.jacobian = {}
        self.state = 0

    def solve(self):
        self.state += 1
        n = self.state
        self.residual = self.ctx.real(f"{self.label}.r@{n}", typ=(-1, 1))
        for c in self.cols:
            self.jacobian[c] = self.jacobian.get(c, 0) + self.ctx.real(
                f"{self.label}.d{c}@{n}", typ=(-1, 1))
        self.last = dict(self.jacobian)

    def clear_jacobian(self):
        self.jacobian = {}

    def rows(self):
        return [(self.residual, self.last)] if self.P.is_set else []


def stub_ude(ctx, label, cols, empty=False):
    from tespy.tools.helpers import UserDefinedEquation

    def func(ude):
        ude.n = getattr(ude, "n", 0) + 1
        return ctx.real(f"{label}.r@{ude.n}", typ=(-1, 1))

    def deriv(ude):
        if not empty:
            for c in cols:
                ude.jacobian[c] = ctx.real(f"{label}.d{c}@{ude.n}",
                                           typ=(-1, 1))
    u = UserDefinedEquation(label, func, deriv, [])
    u.jacobian = {}
    u.rows = lambda: [(u.residual, dict(u.jacobian))]
    return u


def table(objs):
    return pd.DataFrame({"object": objs, "comp_type": ["X"] * len(objs)},
                        index=[o.label for o in objs], dtype=object)


# layouts: component rows, connection rows, busses set?, number of udes,
# and the objects without any derivative
LAYOUTS = [([2, 1], [1], [True], 1, ()),
           ([1, 0, 2], [0, 2, 1], [False, True, True], 2, ()),
           ([3], [0, 0], [], 0, ()),
           ([1], [2, 1], [True, False], 0, ()),
           ([0, 1, 1], [1], [], 2, ()),
           ([2, 1, 1], [1, 1], [True], 2, ("comp0", "conn0", "ude0"))]


def columns(n, seed):
    return [sorted({(3 * seed + 2 * k) % n, (seed + k * k + 1) % n,
                    (5 * seed + k) % n}) for k in range(8)]


def assembly(i):
    comps, conns, busses, udes, empty = LAYOUTS[i]

    def fn(ctx):
        nw = network(ctx)
        n = sum(comps) + sum(conns) + sum(busses) + udes
        C = [Stub(ctx, f"comp{k}", e, columns(n, k), f"comp{k}" in empty)
             for k, e in enumerate(comps)]
        N = [Stub(ctx, f"conn{k}", e, columns(n, k + 3),
                  f"conn{k}" in empty) for k, e in enumerate(conns)]
        B = [StubBus(ctx, f"bus{k}", s, columns(n, k + 6)[0])
             for k, s in enumerate(busses)]
        U = [stub_ude(ctx, f"ude{k}", columns(n, k + 8)[1],
                      f"ude{k}" in empty) for k in range(udes)]
        nw.comps, nw.conns = table(C), table(N)
        nw.busses = {b.label: b for b in B}
        nw.user_defined_eq = {u.label: u for u in U}
        nw.num_comp_eq, nw.num_conn_eq = sum(comps), sum(conns)
        nw.num_bus_eq, nw.num_ude_eq = sum(busses), udes
        nw.num_vars = n
        typ = object if ctx.mode == "sym" else float
        nw.residual = np.zeros(n).astype(typ)
        nw.jacobian = np.zeros((n, n)).astype(typ)
        nw.increment = np.ones(n)
        nw.increment_filter = np.zeros(n, dtype=bool)
        ctx.data["inv"] = lambda a: np.zeros(a.shape)
        order = None
        for it in range(2):
            nw.solve_components()
            nw.solve_busses()
            nw.solve_connections()
            nw.solve_user_defined_eq()
            rows = [r for o in C + N + B + U for r in o.rows()]
            ctx.true("one-row-each", len(rows) == n)
            place = []
            for r, _ in rows:
                at = [k for k in range(n) if (
                    nw.residual[k] is r or is_sym(r) and
                    is_sym(nw.residual[k]) and nw.residual[k].t is r.t or
                    not is_sym(r) and nw.residual[k] == r)]
                place.append(at[0] if at else None)
            ctx.true("residual-present", None not in place)
            ctx.true("own-row", len(set(place)) == n)
            ctx.true("same-row", order in (None, place))
            order = place
            for (r, d), k in zip(rows, place):
                for c in range(n):
                    ctx.eq(f"row[{k}]", nw.jacobian[k, c], d.get(c, 0))
            ctx.true("filter", all(f is nw.increment_filter
                                   for o in C + N for f in o.filters))
            ctx.true("solved-once", all(o.state == it + 1 for o in C + N))
            ctx.true("iteration-count", all(o.it == it + 1 for o in C + N))
    return Harness(f"assembly[{i}]", fn, repl=lambda: [], conc=2,
                   bounded="layouts of the system enumerated")


def step(n):
    """one Newton step solves the linear system"""
    def fn(ctx):
        nw = network(ctx)
        typ = object if ctx.mode == "sym" else float
        J = [[ctx.real(f"J{i}{j}", typ=(-5, 5)) for j in range(n)]
             for i in range(n)]
        r = [ctx.real(f"r{i}", typ=(-5, 5)) for i in range(n)]
        nw.jacobian = np.array(J, dtype=typ)
        nw.residual = np.array(r, dtype=typ)
        nw.increment = np.ones(n)
        nw.lin_dep = True
        nw.matrix_inversion()
        if nw.lin_dep:
            if ctx.mode == "conc":
                ctx.true("regular", False)
            for i in range(n):
                ctx.eq("no-step", nw.increment[i], 0)
            return
        for i in range(n):
            ctx.eq(f"newton[{i}]", sum(J[i][j] * nw.increment[j]
                                       for j in range(n)) + r[i], 0,
                   tol=1e-7, scale=10)
    return Harness(f"newton-step[{n}]", fn, repl=lambda: [], conc=6,
                   bounded="number of variables")


def singular():
    def fn(ctx):
        nw = network(ctx)
        nw.jacobian = np.array([[1.0, 2.0], [0.0, 0.0]])
        nw.residual = np.array([1.0, 2.0])
        nw.increment = np.ones(2)
        nw.lin_dep = False
        nw.matrix_inversion()
        ctx.true("flagged", nw.lin_dep is True)
        ctx.true("no-step", not np.any(nw.increment))
        nw.jacobian = np.array([[1.0, 2.0], [0.0, 3.0]])
        nw.matrix_inversion()
        ctx.true("regular-again", nw.lin_dep is False)
    return Harness("singular", fn, sym=False, conc=1,
                   bounded="one singular matrix")


def conn(label, src="s", tgt="t"):
    from tespy.components import Sink, Source
    from tespy.connections import Connection
    return Connection(Source(src + label), "out1", Sink(tgt + label), "in1",
                      label=label)


def update(perm):
    """each variable moves by its own increment, within its limits"""
    def fn(ctx):
        from tespy.tools.data_containers import ComponentProperties
        nw = network(ctx)
        a, b = conn("a"), conn("b")
        old = {}
        for c in (a, b):
            for k, typ in (("m", (0.1, 9)), ("p", (1e5, 1e6)),
                           ("h", (1e5, 1e6))):
                d = c.get_attr(k)
                d.val_SI = ctx.real(f"{c.label}.{k}", 0 if k == "p" else
                                    None, strict=True, typ=typ)
                old[c.label, k] = d.val_SI
        b.m = a.m                       # shared mass flow
        fl = a.fluid
        fl.val = {"N2": ctx.real("x.N2", 0, 1, typ=(0, 1)),
                  "O2": ctx.real("x.O2", 0, 1, typ=(0, 1))}
        xo = dict(fl.val)
        lo, hi = ctx.real("lo", typ=(-3, -1)), ctx.real("hi", typ=(1, 3))
        ctx.assume(lo < hi)
        par = ComponentProperties(is_var=True, is_set=True)
        par.min_val, par.max_val = lo, hi
        par.val = v0 = ctx.real("v", typ=(-2, 2))
        fix = ComponentProperties(is_set=True)
        fix.val = f0 = ctx.real("f", typ=(-2, 2))
        # b.h is fixed by the user
        b.h.is_set = True
        ent = [(a, "m", None), (a, "p", None), (a, "h", None),
               (b, "p", None), (a, "fluid", "O2"), (par, "zeta", None)]
        col = {}
        n = len(ent)
        for k, j in enumerate(perm):
            o, var, f = ent[k]
            e = {"obj": o, "variable": var}
            if var == "fluid":
                o.fluid.J_col = {f: j}
                o.fluid.is_var = {f}
                e["fluid"] = f
            elif o is par:
                par.J_col = j
            else:
                d = o.get_attr(var)
                d.J_col, d.is_var = j, True
            col[k] = j
            nw.variables_dict[j] = e
        nw.variables_dict = dict(sorted(nw.variables_dict.items()))
        SC = {"m": (-3, 3), "p": (-3e6, 1e6), "h": (-1e5, 1e5),
              "fluid": (-1.2, 1.2), "zeta": (-4, 4)}
        inc = [None] * n
        for k, (o, var, f) in enumerate(ent):
            inc[col[k]] = ctx.real(f"inc{k}", typ=SC[var])
        nw.increment = np.array(inc, dtype=object if ctx.mode == "sym"
                                else float)
        nw.update_variables()
        D = [inc[col[k]] for k in range(n)]
        ctx.eq("m", a.m.val_SI, old["a", "m"] + D[0])
        ctx.eq("h", a.h.val_SI, old["a", "h"] + D[2])
        ctx.true("shared", b.m is a.m)
        ctx.eq("fixed", b.h.val_SI, old["b", "h"])
        ctx.eq("fixed-parameter", fix.val, f0)
        for c, d in ((a, D[1]), (b, D[3])):
            p0, p1 = old[c.label, "p"], c.p.val_SI
            ctx.true(f"p[{c.label}]:positive", p1 > 0)
            if d > -p0 / 2:
                ctx.eq(f"p[{c.label}]:step", p1, p0 + d, tol=1e-9)
            else:
                ctx.true(f"p[{c.label}]:direction", p1 < p0)
        x = fl.val["O2"]
        y = xo["O2"] + D[4]
        ctx.true("x:range-low", x >= 0)
        ctx.true("x:range-high", x <= 1)
        if y > 1e-5:
            if y < 1 - 1e-5:
                ctx.eq("x:step", x, y)
        ctx.eq("x:other", fl.val["N2"], xo["N2"])
        y = v0 + D[5]
        ctx.true("v:range-low", par.val >= lo)
        ctx.true("v:range-high", par.val <= hi)
        if y >= lo:
            if y <= hi:
                ctx.eq("v:step", par.val, y)
    return Harness("update[" + "".join(map(str, perm)) + "]", fn,
                   repl=lambda: [], conc=8)


def lin_dep():
    """a singular system leaves every value"""
    def fn(ctx):
        nw = network(ctx)
        called = []
        for k in ("solve_components", "solve_busses", "solve_connections",
                  "solve_user_defined_eq"):
            setattr(nw, k, lambda k=k: called.append(k))
        a = conn("a")
        a.h.val_SI = h0 = ctx.real("h")
        a.h.is_var, a.h.J_col = True, 0
        nw.variables_dict = {0: {"obj": a, "variable": "h"}}
        nw.num_vars = 1
        nw.jacobian = np.zeros((1, 1))
        nw.residual = np.array([1.0])
        nw.increment = np.ones(1)
        nw.conns, nw.comps = table([a]), table([])
        nw.solve_control()
        ctx.true("flagged", nw.lin_dep is True)
        ctx.eq("unchanged", a.h.val_SI, h0)
        ctx.true("all-equations", len(called) == len(set(called)) == 4)
    return Harness("singular-step", fn, repl=lambda: [], conc=1)


def loop(max_iter, min_iter, sing):
    """the verdict on convergence"""
    def fn(ctx):
        nw = network(ctx)
        nw.num_vars = 1
        nw.max_iter, nw.min_iter = max_iter, min_iter
        nw.converged = False
        nw.lin_dep = False
        hist = []

        def control():
            i = len(hist)
            r = ctx.real(f"r{i}", typ=(-3e-3, 3e-3))
            hist.append(r)
            nw.residual = np.array([r], dtype=object if ctx.mode == "sym"
                                   else float)
            nw.increment = np.array([0.5])
            nw.lin_dep = i == sing
        nw.solve_control = control
        nw.solve_loop(print_results=False)
        # oracle
        want, stop = False, max_iter
        for k in range(1, max_iter + 1):
            if sing == k - 1:
                stop = k
                break
            ok = True
            for r in hist[max(0, k - 2):k]:
                if not abs(r) < CONV:
                    ok = False
            if len(hist) < k:
                ctx.true("stopped-early", False)
                return
            if ok and k >= min_iter:
                want, stop = True, k
                break
        ctx.true("verdict", nw.converged is want or bool(nw.converged)
                 == want)
        ctx.true("iterations", len(hist) == stop)
        ctx.true("history", len(nw.residual_history) == stop)
        for k in range(min(stop, len(nw.residual_history))):
            ctx.eq("history-value", nw.residual_history[k], abs(hist[k]))
    return Harness(f"verdict[max {max_iter},min {min_iter}"
                   f"{f',singular at {sing}' if sing >= 0 else ''}]", fn,
                   repl=lambda: [], conc=12,
                   bounded="number of iterations")


def stuck():
    """no progress, and running out of iterations, is not convergence"""
    def fn(ctx):
        for seq, n in ((lambda i: 5.0, 50), (lambda i: 5.0 + i, 60),
                       (lambda i: 100.0 / (i + 1), 48),
                       (lambda i: float("nan"), 45),
                       (lambda i: 1.001e-3, 50),
                       (lambda i: 5.0 if i % 2 else 1e-9, 50)):
            nw = network(ctx)
            nw.num_vars = 2
            nw.max_iter, nw.min_iter = n, 4
            nw.converged = False
            k = [0]

            def control():
                nw.residual = np.array([seq(k[0]), 0.0])
                nw.increment = np.array([1.0, 1.0])
                nw.lin_dep = False
                k[0] += 1
            nw.solve_control = control
            nw.solve_loop(print_results=False)
            ctx.true("not-converged", not nw.converged)
            ctx.true("bounded", k[0] <= n)
    return Harness("stuck", fn, sym=False, conc=1,
                   bounded="five residual histories")


def solve_flow(case):
    """solve(): the verdict belongs to this calculation"""
    def fn(ctx):
        nw = network(ctx)
        nw.checked = True
        nw.converged = True             # of an earlier calculation
        log = []
        nw.initialise = lambda: log.append("init")
        nw.reset_topology_reduction_specifications = \
            lambda: log.append("reset")
        nw.postprocessing = lambda: log.append("post")

        def determination():
            log.append("det")
            if case == "undetermined":
                raise ValueError()
        nw.solve_determination = determination

        def loop(print_results=True):
            log.append("loop")
            ctx.true("fresh", nw.converged is False)
            nw.lin_dep = case == "singular"
            nw.progress = case != "stuck"
            nw.converged = case == "ok"
            nw.residual = np.array([1.0])
            if case == "crash":
                raise ValueError()
        nw.solve_loop = loop
        try:
            nw.solve("design", print_results=False,
                     init_only=case == "init_only")
            raised = False
        except ValueError:
            raised = True
        ctx.true("raised", raised == (case in ("undetermined", "crash")))
        ctx.true("verdict", bool(nw.converged) == (case == "ok"))
        ctx.true("initialised-first", log[0] == "init")
        if case == "ok":
            ctx.true("order", log.index("det") < log.index("loop") <
                     log.index("post"))
        if case in ("ok", "singular", "stuck", "init_only"):
            ctx.true("specifications-restored", log.count("reset") >= 1)
        if case in ("singular", "stuck", "init_only"):
            ctx.true("no-results", "post" not in log)
    return Harness(f"solve[{case}]", fn, repl=lambda: [], conc=1,
                   bounded="outcomes enumerated")


def determination(udes):
    """as many equations as variables, or the calculation is refused"""
    def fn(ctx):
        from tespy.tools.helpers import TESPyNetworkError
        nw = network(ctx)
        nw.conns = table([])
        nw.user_defined_eq = {f"u{k}": stub_ude(ctx, f"u{k}", [0])
                              for k in range(udes)}
        for k in ("num_comp_eq", "num_conn_eq", "num_bus_eq",
                  "num_comp_vars", "num_conn_vars"):
            setattr(nw, k, ctx.real(k, typ=(0, 9)) if ctx.mode == "sym"
                    else int(ctx.real(k, typ=(0, 3))))
        try:
            nw.solve_determination()
            ok = True
        except TESPyNetworkError:
            ok = False
        n = nw.num_comp_eq + nw.num_conn_eq + nw.num_bus_eq + udes
        v = nw.num_comp_vars + nw.num_conn_vars
        same = bool(n == v)
        ctx.true("accepted-iff-determined", same == ok)
        ctx.eq("variables", nw.num_vars, v)
    return Harness(f"determination[{udes}]", fn, repl=lambda: [], conc=20)


def space(alias):
    """every variable has a column of its own, fixed values have none"""
    def fn(ctx):
        nw = network(ctx)
        nw.num_conn_vars = off = 2      # columns of mass fractions
        nw._conn_variables = []
        cs = [conn(x) for x in ("abc" if alias else "ab")]
        if alias:
            cs[1].m = cs[0].m
        if alias == 2:
            cs[2].m = cs[0].m
        box = {}
        for c in cs:
            for k in "mph":
                d = c.get_attr(k)
                box.setdefault(id(d), (d, f"{c.label}.{k}"))
        want = []
        for d, name in box.values():
            kind = ctx.choice(name, ["free", "set", "solved"]
                              if not name.endswith("m") else
                              ["free", "set"])
            d.is_set, d._solved = kind == "set", kind == "solved"
            d.is_var = bool(ctx.choice(name + ".was_var", [True, False])) \
                if name == "a.p" else True
            if kind == "free":
                want.append(d)
        for c in cs:
            nw._assign_variable_space(c)
        ctx.true("count", nw.num_conn_vars == off + len(want))
        ctx.true("columns", sorted(nw.variables_dict) == list(range(
            off, off + len(want))))
        ctx.true("is_var", all(d.is_var == any(d is w for w in want)
                               for d, _ in box.values()))
        seen = []
        for j, e in nw.variables_dict.items():
            d = e["obj"].get_attr(e["variable"])
            ctx.true("column", d.J_col == j)
            seen.append(id(d))
        ctx.true("distinct", len(set(seen)) == len(want))
        ctx.true("solved-is-consumed", not any(d._solved for d, _ in
                                               box.values()))
    return Harness(f"columns[{alias}]", fn, repl=lambda: [], conc=10,
                   max_paths=9000, bounded="two or three connections")


def whole(name):
    """a reported solution is a solution; random starting mass flows"""
    def fn(ctx):
        for start, limit in ((1, 50), (2, 50), (3, 4)):
            np.random.seed(start)
            n = nets.build(name)
            nets.solve(n.nw, max_iter=limit)
            if n.nw.converged:
                nets.judge(ctx, n)
                ctx.true("regular", not n.nw.lin_dep)
                ctx.true("residuals", float(np.linalg.norm(
                    n.nw.residual)) < 1e-3)
            else:
                ctx.true("limit", n.nw.iter + 1 >= n.nw.max_iter)
    return Harness(f"solution[{name}]", fn, sym=False, conc=1,
                   bounded="this network")


def respecified():
    """rows of a later calculation hold nothing of an earlier one"""
    def fn(ctx):
        from tespy.tools.helpers import UserDefinedEquation
        np.random.seed(5)
        n = nets.Net()
        for x in "ab":
            n.add("Source", f"so{x}")
            n.add("Pump", f"pu{x}", eta_s=0.8)
            n.add("SimpleHeatExchanger", f"he{x}", pr=0.9)
            n.add("Sink", f"si{x}")
            n.chain(f"so{x}", f"pu{x}", f"he{x}", f"si{x}", prefix=x)
            n.conn[x + "1"].set_attr(fluid={"water": 1}, T=40)
            n.conn[x + "3"].set_attr(T=90)
        bus = n.N.Bus("heat")
        bus.add_comps({"comp": n.comp["hea"]}, {"comp": n.comp["heb"]})
        n.nw.add_busses(bus)

        def eq(u):
            a, b = u.conns
            return a.p.val_SI - 2 * b.p.val_SI + 1e3 * (
                a.m.val_SI - b.m.val_SI)

        def de(u):
            a, b = u.conns
            for d, v in ((a.p, 1), (b.p, -2), (a.m, 1e3), (b.m, -1e3)):
                if d.is_var:
                    u.jacobian[d.J_col] = v
        ude = UserDefinedEquation("u", eq, de, [n.conn["a2"],
                                                n.conn["b2"]])
        n.nw.add_ude(ude)
        steps = (
            # free: p at a2, m of b
            {"a": dict(m=2, p=1), "b": dict(p=1), "b2": dict(p=10, m=3),
             "P": None},
            {"a": dict(m=None, p=1), "b": dict(p=1), "b2": dict(p=10, m=3),
             "P": 2e6},
            {"a": dict(m=None, p=1), "b": dict(p=1), "a2": dict(p=20),
             "b2": dict(p=None, m=3), "P": 1.5e6},
            {"a": dict(m=2, p=1), "b": dict(p=2), "a2": dict(p=None),
             "b2": dict(p=8, m=None), "P": 1.6e6},
            {"a": dict(m=2, p=1), "b": dict(p=2), "a2": dict(p=None),
             "b2": dict(p=8, m=1), "P": None})
        order = ("a", "b", "a2", "b2")
        for i, st in enumerate(steps):
            for k in order:
                if k in st:
                    n.conn[k if len(k) > 1 else k + "1"].set_attr(**st[k])
            bus.set_attr(P=st["P"])
            nets.solve(n.nw)
            nw = n.nw
            ctx.true(f"converged[{i}]", bool(nw.converged))
            a, b = n.conn["a2"], n.conn["b2"]
            col = {}
            for k, d in nw.variables_dict.items():
                lb = d["obj"].label
                col[lb[0] if d["variable"] == "m" else lb,
                    d["variable"]] = k
            want = [0.0] * nw.num_vars
            for k, v in ((("a2", "p"), 1), (("b2", "p"), -2),
                         (("a", "m"), 1e3), (("b", "m"), -1e3)):
                if k in col:
                    want[col[k]] = v
            for g, v in zip(nw.jacobian[-1], want):
                ctx.eq(f"ude[{i}]", float(g), float(v))
            if st["P"] is not None:
                want = [0.0] * nw.num_vars
                for x in "ab":
                    q1, q2 = n.conn[x + "2"], n.conn[x + "3"]
                    for k, v in (((x, "m"), q2.h.val_SI - q1.h.val_SI),
                                 ((x + "2", "h"), -q1.m.val_SI),
                                 ((x + "3", "h"), q1.m.val_SI)):
                        if k in col:
                            want[col[k]] = -v
                for g, v in zip(nw.jacobian[-2], want):
                    ctx.true(f"bus[{i}]", abs(g - v) <=
                             2e-3 * (1 + abs(v)))
            ctx.true(f"solved[{i}]", abs(
                a.p.val_SI - 2 * b.p.val_SI + 1e3 * (
                    a.m.val_SI - b.m.val_SI)) < 1)
    return Harness("respecified", fn, sym=False, conc=1,
                   bounded="one network, five calculations")


def harnesses(tier):
    out = [assembly(i) for i in range(len(LAYOUTS))]
    out += [step(n) for n in (1, 2, 3)] + [singular(), lin_dep(), stuck()]
    out += [update(p) for p in ((0, 1, 2, 3, 4, 5), (5, 3, 4, 0, 2, 1))]
    out += [loop(M, m, s) for M in (1, 2, 3, 5) for m in (1, 2, 4)
            for s in (-1, 0, 2) if s < M]
    out += [solve_flow(c) for c in ("ok", "singular", "stuck", "init_only",
                                    "undetermined", "crash")]
    out += [determination(k) for k in (0, 1, 2)]
    out += [space(a) for a in (0, 1, 2)]
    out += [respecified()] + [whole(k) for k in nets.NETS]
    return out
