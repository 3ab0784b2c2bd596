"""C18: the optimisation problem hands the decision variables to the model
and objective and constraints back to the optimiser."""
import contextlib
import copy
import io
import itertools

import numpy as np

from vc.engine import is_sym
from vc.runner import Harness


class Model:
    """the user's model by its contract: solve_model takes the inputs,
    get_param and get_objective report on the solved state"""

    def __init__(self, ctx, fixed=None):
        self.ctx = ctx
        self.inputs = []
        self.n = {}
        self.fixed = fixed or {}

    def solve_model(self, **kw):
        self.inputs.append(copy.deepcopy(kw))

    def value(self, *key):
        if key in self.fixed:
            return self.fixed[key]
        k = len(self.inputs), key
        if k not in self.n:
            self.n[k] = self.ctx.real(f"{'.'.join(map(str, key))}@{k[0]}",
                                      typ=(-5, 5))
        return self.n[k]

    def get_param(self, obj, label, param):
        return self.value(obj, label, param)

    def get_objective(self, objective=None):
        return self.value("objective", objective)


# sections of the variables; custom ones carry the limits directly
VARS = {
    "none": {},
    "conn": {"Connections": {"c1": ["p"]}},
    "both": {"Connections": {"c1": ["p", "T"], "c2": ["p"]},
             "Components": {"tur": ["eta_s"]}},
    "swap": {"Components": {"tur": ["eta_s", "pr"], "pu": ["eta_s"]},
             "Connections": {"c2": ["m"]}},
    "custom": {"Components": {"tur": ["eta_s"]}, "a": {"x": None, "y": None},
               "Connections": {"c1": ["p"]}, "b": {"x": None}},
    "only": {"a": {"x": None}},
}
CONS = {
    "none": {},
    "upper": {"upper limits": {"Connections": {"c1": {"p": 0}}}},
    "lower": {"lower limits": {"Components": {"tur": {"P": 0, "Q": 0}}}},
    "mixed": {"lower limits": {"Connections": {"c1": {"p": 0, "T": 0}},
                               "Components": {"pu": {"P": 0}}},
              "upper limits": {"Components": {"tur": {"P": 0}},
                               "Connections": {"c3": {"x": 0}}}},
    "ref": {"lower limits": {"Connections": {"c1": {"p": "r1", "T": 0}}},
            "upper limits": {"Connections": {"c2": {"p": "r2"},
                                             "c3": {"h": "r1"}}},
            "r1": ["Connections", "c9", "p"], "r2": ["Components", "q", "P"]},
    "custom": {"lower limits": {"kpi": {"total": {"eta": 0}}},
               "upper limits": {"kpi": {"total": {"cost": 0}}}},
}


def flat(variables):
    """(section, label, parameter or None)"""
    for s, d in variables.items():
        for k, v in d.items():
            if s in ("Connections", "Components"):
                for p in v:
                    yield s, k, p
            else:
                yield s, k, None


def given(ctx, kind):
    out, lim = {}, {}
    for n, (s, k, p) in enumerate(flat(VARS[kind])):
        lo = ctx.real(f"min{n}", typ=(0, 1))
        hi = ctx.real(f"max{n}", typ=(2, 3))
        lim[s, k, p] = (lo, hi)
        d = out.setdefault(s, {})
        if p is None:
            d[k] = {"min": lo, "max": hi}
        else:
            d.setdefault(k, {})[p] = {"min": lo, "max": hi}
    return out, lim


def limits(ctx, kind):
    cons = copy.deepcopy(CONS[kind])
    n = 0
    for b in ("upper limits", "lower limits"):
        for s in cons.get(b, {}).values():
            for d in s.values():
                for p, v in d.items():
                    if not isinstance(v, str):
                        d[p] = ctx.real(f"limit{n}", typ=(-3, 3))
                        n += 1
    return cons


def same(ctx, name, a, b):
    if a is b:
        ctx.true(name, True)
    elif is_sym(a) or is_sym(b):
        ctx.eq(name, a, b)
    else:
        ctx.true(name, a == b)


def equal(ctx, name, a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        ctx.true(name + ".keys", isinstance(a, dict) and isinstance(b, dict)
                 and list(a) == list(b))
        for k in b:
            if k in a:
                equal(ctx, f"{name}.{k}", a[k], b[k])
    else:
        same(ctx, name, a, b)


def problem(vk, ck):
    def fn(ctx):
        from tespy.tools.optimization import OptimizationProblem
        var, lim = given(ctx, vk)
        con = limits(ctx, ck)
        var0, con0 = copy.deepcopy(var), copy.deepcopy(con)
        model = Model(ctx)
        pb = OptimizationProblem(model, var, con, objective="eta")
        ctx.true("model not solved yet", not model.inputs)
        low, up = pb.get_bounds()
        names = list(pb.variable_list)
        want = {"-".join(x for x in k if x is not None): k for k in lim}
        ctx.true("each variable once", sorted(names) == sorted(want))
        ctx.true("as many bounds", len(low) == len(up) == len(lim))
        for i, nm in enumerate(names):
            if nm in want:
                same(ctx, f"lower bound of {nm}", low[i], lim[want[nm]][0])
                same(ctx, f"upper bound of {nm}", up[i], lim[want[nm]][1])
        cons = []
        for border in ("upper", "lower"):
            for s, d in con.get(border + " limits", {}).items():
                for k, ps in d.items():
                    for p, v in ps.items():
                        cons.append((border, s, k, p, v))
        ctx.true("number of constraints", pb.get_nic() == len(cons))
        ctx.true("one name each", len(pb.constraint_list) == len(cons))
        ctx.true("one objective", pb.get_nobj() == 1)
        ctx.true("objective name", list(pb.objective_list) == ["eta"])
        by = {}
        for j, c in enumerate(cons):
            border, s, k, p, v = c
            r = "-".join(con[v]) if isinstance(v, str) else str(v)
            nm = f"{s}-{k}-{p}" + (">=" if border == "lower" else "<=") + r
            by[nm] = c
        ctx.true("constraint names", sorted(pb.constraint_list) ==
                 sorted(by))
        for rnd in range(3):
            x = [ctx.real(f"x{i}@{rnd}", typ=(0, 3))
                 for i in range(len(names))]
            f = pb.fitness(x)
            ctx.true(f"[{rnd}] model solved once",
                     len(model.inputs) == rnd + 1)
            if len(model.inputs) != rnd + 1:
                return
            kw = model.inputs[-1]
            seen = 0
            for i, nm in enumerate(names):
                if nm not in want:
                    continue
                s, k, p = want[nm]
                try:
                    v = kw[s][k] if p is None else kw[s][k][p]
                except (KeyError, TypeError):
                    v = None
                seen += 1
                same(ctx, f"[{rnd}] input {nm}", v, x[i])
            got = sum(1 for _ in flat({s: {k: d for k, d in v.items()}
                                       for s, v in kw.items()}))
            ctx.true(f"[{rnd}] no other input", got == len(lim))
            ctx.true(f"[{rnd}] length", len(f) == 1 + len(cons))
            same(ctx, f"[{rnd}] objective", f[0],
                 model.value("objective", "eta"))
            for j, nm in enumerate(pb.constraint_list):
                if nm not in by or j + 1 >= len(f):
                    continue
                border, s, k, p, v = by[nm]
                val = model.value(s, k, p)
                lm = model.value(*con[v]) if isinstance(v, str) else v
                exp = val - lm if border == "upper" else lm - val
                ctx.eq(f"[{rnd}] constraint {nm}", f[j + 1], exp, tol=1e-12)
            l2, u2 = pb.get_bounds()
            for i in range(len(names)):
                same(ctx, f"[{rnd}] bound {i}", l2[i], low[i])
                same(ctx, f"[{rnd}] bound {i} up", u2[i], up[i])
        equal(ctx, "variables of the user", var, var0)
        equal(ctx, "constraints of the user", con, con0)
    return Harness(f"problem[{vk},{ck}]", fn, repl=lambda: [])


def merge():
    """merge_dicts: union, nested; the second one wins; nothing shared"""
    def fn(ctx):
        from tespy.tools.helpers import merge_dicts
        v = [ctx.real(f"v{i}", typ=(0, 1)) for i in range(7)]
        a = {"x": {"p": v[0], "q": {"r": v[1]}}, "y": v[2], "only": {"z":
             v[6]}}
        b = {"x": {"p": v[3], "q": {"s": v[4]}}, "w": {"k": v[5]}, "e": {}}
        a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
        r = merge_dicts(a, b)
        for nm, got, exp in (
                ("x.p", r["x"]["p"], v[3]), ("x.q.r", r["x"]["q"]["r"], v[1]),
                ("x.q.s", r["x"]["q"]["s"], v[4]), ("y", r["y"], v[2]),
                ("w.k", r["w"]["k"], v[5]),
                ("only", r["only"]["z"], v[6])):
            same(ctx, nm, got, exp)
        ctx.true("keys", set(r) == {"x", "y", "only", "w", "e"})
        ctx.true("empty", r["e"] == {})
        r["x"]["p"] = r["x"]["q"]["r"] = r["only"]["z"] = "changed"
        r["w"]["k"] = r["e"]["n"] = "changed"
        equal(ctx, "first unchanged", a, a0)
        equal(ctx, "second unchanged", b, b0)
    return Harness("merge", fn, repl=lambda: [])


class Pop:
    """population by its contract"""

    def __init__(self, xs, fs):
        self.xs, self.fs = xs, fs
        k = int(np.argmin(fs[:, 0]))
        self.champion_x, self.champion_f = xs[k], fs[k]

    def get_x(self):
        return self.xs

    def get_f(self):
        return self.fs


class Algo:
    def __init__(self, pops):
        self.pops, self.n = pops, 0

    def evolve(self, pop):
        assert pop is self.pops[self.n]
        self.n += 1
        return self.pops[self.n]


def record(nv, nc, gens, inds):
    """the table of individuals lists what the optimiser evaluated"""
    def fn(ctx):
        from tespy.tools.optimization import OptimizationProblem
        rs = np.random.RandomState(int(ctx.real("seed", typ=(0, 1e6))))
        var = {"Components": {f"k{i}": {"P": {"min": 0, "max": 1}}
                              for i in range(nv)}}
        con = {"upper limits": {"Connections": {
            f"c{i}": {"p": i} for i in range(nc)}}}
        pb = OptimizationProblem(Model(ctx), var, con, "eta")
        pops = []
        for g in range(gens):
            f = rs.rand(inds, 1 + nc) * 4 - 2
            f[rs.rand(*f.shape) < 0.2] = 0.0      # exactly at the limit
            if nc:
                f[0, 1:] = -1.0
            pops.append(Pop(rs.rand(inds, nv), f))
        algo = Algo(pops)
        with contextlib.redirect_stdout(io.StringIO()):
            last = pb.run(algo, pops[0], inds, gens)
        ctx.true("last population", last is pops[-1])
        ctx.true("generations", algo.n == gens - 1)
        df = pb.individuals
        ctx.true("rows", len(df) == gens * inds)
        for g, i in itertools.product(range(gens), range(inds)):
            row = df.loc[(g, i)]
            cols = pb.variable_list + pb.objective_list + \
                pb.constraint_list + ["valid"]
            ctx.true("columns", set(cols) <= set(df.columns))
            if not set(cols) <= set(df.columns):
                return
            for j, nm in enumerate(pb.variable_list):
                ctx.eq(f"x[{g},{i},{nm}]", float(row[nm]),
                       pops[g].xs[i][j], tol=1e-12)
            for j, nm in enumerate(pb.objective_list + pb.constraint_list):
                ctx.eq(f"f[{g},{i},{nm}]", float(row[nm]),
                       pops[g].fs[i][j], tol=1e-12)
            ctx.true(f"valid[{g},{i}]", bool(row["valid"]) == bool(
                (pops[g].fs[i][1:] <= 0).all()))
    return Harness(f"record[{nv},{nc},{gens},{inds}]", fn, sym=False,
                   conc=6, bounded=f"{gens} generations of {inds} random "
                   "individuals")


def evolution():
    """a real optimiser: the table is what the model was asked"""
    def fn(ctx):
        import pygmo as pg
        from tespy.tools.optimization import OptimizationProblem

        class Quad:
            def __init__(self):
                self.asked = {}

            def solve_model(self, **kw):
                self.x = (kw["Components"]["a"]["P"],
                          kw["Connections"]["c"]["p"])
                self.asked[self.x] = self.get_objective("f")

            def get_param(self, obj, label, param):
                return self.x[0] if label == "a" else self.x[1]

            def get_objective(self, objective=None):
                return (self.x[0] - 0.3) ** 2 + (self.x[1] - 4) ** 2

        seed = int(ctx.real("seed", typ=(1, 1e6)))
        model = Quad()
        pb = OptimizationProblem(
            model, {"Components": {"a": {"P": {"min": 0, "max": 1}}},
                    "Connections": {"c": {"p": {"min": 2, "max": 9}}}},
            {"lower limits": {"Connections": {"c": {"p": "r"}}},
             "r": ["Components", "a", "P"]}, "f")
        pb2 = pg.problem(pb)
        pop = pg.population(pb2, size=8, seed=seed)
        algo = pg.algorithm(pg.ihs(gen=2, seed=seed))
        with contextlib.redirect_stdout(io.StringIO()):
            # pygmo works on a copy of the problem
            pb.run(algo, pop, 8, 4)
        inner = pop.problem.extract(OptimizationProblem)
        df = pb.individuals
        ctx.true("rows", len(df) == 32)
        for _, r in df.iterrows():
            a, p = r["Components-a-P"], r["Connections-c-p"]
            ctx.true("bounds a", 0 <= a <= 1)
            ctx.true("bounds p", 2 <= p <= 9)
            ctx.eq("objective", r["f"], (a - 0.3) ** 2 + (p - 4) ** 2,
                   tol=1e-9)
            ctx.eq("constraint", r["Connections-c-p>=Components-a-P"],
                   a - p, tol=1e-9)
            ctx.true("valid", bool(r["valid"]) == bool(a <= p))
        ctx.true("problem known to the optimiser", inner is not None)
    return Harness("evolution", fn, sym=False, conc=3,
                   bounded="a quadratic model, ihs, 3 seeds")


def harnesses(tier):
    out = [problem(v, c) for v in VARS for c in CONS]
    out.append(merge())
    for nv, nc, g, i in ((1, 0, 1, 3), (2, 1, 2, 3), (3, 2, 3, 4),
                         (1, 3, 4, 2), (2, 2, 1, 1)):
        out.append(record(nv, nc, g, i))
    out.append(evolution())
    return out
