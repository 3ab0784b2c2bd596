"""Mutation sweep: how much of the code under contract do the checks notice?

Not part of any check.  For one property: which functions its contracts
execute, then mutants of those functions (one AST edit each), installed by
swapping the code object in a forked process, judged by the contracts that
execute the function.  Prints the mutants that no contract notices.

usage: mutate.py Cxx [--func REGEX] [--max-per-func N] [--jobs 8] [--seed 1]
"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
SRC = "/repo/src/"


# ------------------------------------------------------------------ mutants
CMP = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult}
NAMES = {"min": "max", "max": "min", "all": "any", "any": "all"}
ATTR = {"inl": "outl", "outl": "inl", "val_SI": "val0", "is_set": "is_var",
        "is_var": "is_set"}


def is_log(node):
    s = ast.unparse(node)
    return s.startswith("logger.") or s.startswith("msg") or "warn" in s


def mutants(fn):
    """yield (description, mutated copy of the function node)"""
    nodes = []

    def walk(n, path):
        for f, v in ast.iter_fields(n):
            if f in ("decorator_list", "returns", "annotation"):
                continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        nodes.append((path + [(f, i)], x))
                        walk(x, path + [(f, i)])
            elif isinstance(v, ast.AST):
                nodes.append((path + [(f, None)], v))
                walk(v, path + [(f, None)])
    walk(fn, [])

    def apply(path, new):
        c = copy.deepcopy(fn)
        n = c
        for f, i in path[:-1]:
            n = getattr(n, f)
            if i is not None:
                n = n[i]
        f, i = path[-1]
        if i is None:
            setattr(n, f, new)
        else:
            getattr(n, f)[i] = new
        return c

    skip = set()
    for path, n in nodes:
        if isinstance(n, (ast.Raise, ast.Assert)) or (
                isinstance(n, (ast.Expr, ast.Assign)) and is_log(n)):
            skip.add(tuple(map(str, path)))
    for path, n in nodes:
        t = tuple(map(str, path))
        if any(t[:len(s)] == s for s in skip):
            continue
        if path[0][0] != "body" or (isinstance(n, ast.Expr) and isinstance(
                n.value, ast.Constant)):
            continue

        def rep(new, what):
            return (f"L{getattr(n, 'lineno', '?')} {what}: "
                    f"{ast.unparse(n)[:70]} -> {ast.unparse(new)[:70]}",
                    apply(path, ast.copy_location(new, n)))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            m = copy.deepcopy(n)
            m.ops[0] = CMP[type(n.ops[0])]()
            yield rep(m, "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            yield rep(m, "op")
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            yield rep(m, "aug")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub,
                                                           ast.Not)):
            yield rep(copy.deepcopy(n.operand), "unary")
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            yield rep(m, "bool")
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                if len(m.values) == 1:
                    m = m.values[0]
                yield rep(m, "drop")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield rep(ast.Constant(not n.value), "const")
            elif isinstance(n.value, int):
                yield rep(ast.Constant(n.value + 1 if n.value != 1 else 0),
                          "const")
            elif isinstance(n.value, float):
                yield rep(ast.Constant(n.value * 1.01 if n.value else 0.01),
                          "const")
        if isinstance(n, ast.Name) and n.id in NAMES:
            yield rep(ast.Name(NAMES[n.id], n.ctx), "name")
        if isinstance(n, ast.Attribute) and n.attr in ATTR:
            m = copy.deepcopy(n)
            m.attr = ATTR[n.attr]
            yield rep(m, "attr")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
            yield rep(ast.Pass(), "delete")
        if isinstance(n, ast.Return) and n.value is not None and not \
                isinstance(n.value, ast.Constant):
            yield rep(ast.Return(ast.Constant(None)), "return")
        if isinstance(n, (ast.Break, ast.Continue)):
            yield rep(ast.Pass(), "delete")
        if isinstance(n, ast.If) and n.orelse:
            m = copy.deepcopy(n)
            m.orelse = []
            yield rep(m, "no-else")


def find_node(tree, qual):
    node = tree
    for part in qual.split("."):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                    n.name == part:
                node = n
                break
        else:
            return None
    return node if isinstance(node, ast.FunctionDef) else None


def find_code(code, qual):
    for c in code.co_consts:
        if hasattr(c, "co_qualname"):
            if c.co_qualname == qual:
                return c
            r = find_code(c, qual)
            if r is not None:
                return r
    return None


def get_func(mod, qual):
    import importlib
    import inspect
    o = importlib.import_module(mod)
    for p in qual.split("."):
        o = inspect.getattr_static(o, p)
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    return o


# -------------------------------------------------------------- coverage
def coverage_of(args):
    prop, name = args
    import contracts
    from vc import runner
    h = [x for x in contracts.harnesses(prop, "quick") if x.name == name][0]
    t = time.time()
    out = runner.run_harness(h, "quick", 1)
    fs = set(out["functions"])
    return name, sorted(fs), time.time() - t


def judge(task):
    _, mod, qual, desc, src, names = task
    import contracts
    from vc import runner
    from vc.patch import logging  # noqa: F401
    pid = os.fork() if False else None  # noqa: F841
    path = SRC + mod.replace(".", "/") + ".py"
    try:
        code = compile(src, path, "exec")
        fn = get_func(mod, qual)
        new = find_code(code, qual)
        fn.__code__ = new
    except Exception as e:
        return task[:4], f"not installed: {e}"
    hs = {(p, h.name): h for p in {p for p, _ in names}
          for h in contracts.harnesses(p, "quick")}
    known = runner.load_known()
    t0 = time.time()
    for prop, n in names:
        if time.time() - t0 > 240:
            return task[:4], "SURVIVED (time)"
        r = runner.run_harness(hs[prop, n], "quick", 1)
        v = [x for x in r["violations"] if not runner.match_known(
            known, prop, x)]
        if v:
            return task[:4], ("killed" if not v[0].get("nofail") else
                              "killed-nofail") + f" by {prop} {n}"
    return task[:4], "SURVIVED"


def spawn(task, q):
    os.environ["OMP_NUM_THREADS"] = "1"
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    q.put(judge(task))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", help="property, or several with commas, or all")
    ap.add_argument("--func", default=".")
    ap.add_argument("--max-per-func", type=int, default=1000)
    ap.add_argument("--max-harness", type=int, default=12)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--recover", action="store_true")
    ap.add_argument("--cover", action="store_true")
    ap.add_argument("--survivors")
    a = ap.parse_args()
    import tempfile
    scratch = tempfile.mkdtemp(prefix="mut-")
    os.environ["VERIF_SCRATCH"] = scratch
    os.environ["HOME"] = scratch
    import tespy.networks  # noqa: F401
    import tespy.tools.optimization  # noqa: F401
    import contracts
    from vc import runner  # noqa: F401
    os.makedirs("/tmp/mut", exist_ok=True)
    by = {}
    todo = contracts.MODULES if a.prop == "all" else a.prop.split(",")
    for prop in todo:
        cov = f"/tmp/mut/cov-{prop}.json"
        if a.recover or not os.path.exists(cov):
            hs = contracts.harnesses(prop, "quick")
            with mp.get_context("fork").Pool(a.jobs) as pool:
                res = pool.map(coverage_of, [(prop, h.name) for h in hs], 1)
            json.dump(res, open(cov, "w"))
        for name, fs, wall in json.load(open(cov)):
            for f in fs:
                by.setdefault(f, []).append((wall, prop, name, len(fs)))
    if a.cover:
        for f in sorted(by):
            print(f, len(by[f]), sorted({x[1] for x in by[f]}))
        return
    rnd = random.Random(a.seed)
    tasks = []
    for f in sorted(by):
        mod, qual = f.split(":")
        if not re.search(a.func, f) or "<" in qual or "logger" in mod:
            continue
        path = SRC + mod.replace(".", "/") + ".py"
        text = open(path).read()
        tree = ast.parse(text)
        node = find_node(tree, qual)
        if node is None:
            continue
        ms = list(mutants(node))
        rnd.shuffle(ms)
        # per property the cheapest contracts and a random choice
        names = []
        for prop in sorted({x[1] for x in by[f]}):
            hs = sorted(x for x in by[f] if x[1] == prop)
            if len(hs) > a.max_harness:
                # the most specific ones, the cheapest ones, some others
                k = a.max_harness // 3
                hs.sort(key=lambda x: x[3])
                first, rest = hs[:k], sorted(hs[k:])
                hs = first + rest[:k] + rnd.sample(rest[k:], k)
            names += hs
        names = [(x[1], x[2]) for x in sorted(
            names, key=lambda x: x[3] * (1 + x[0]))]
        for desc, m in ms[:a.max_per_func]:
            t2 = copy.deepcopy(tree)
            old = find_node(t2, qual)
            old.args, old.body = m.args, m.body
            ast.fix_missing_locations(t2)
            tasks.append((a.prop, mod, qual, desc, ast.unparse(t2), names))
    print(f"{len(tasks)} mutants of {len(by)} functions", flush=True)
    ctx = mp.get_context("fork")
    live, done, stat = [], 0, {}
    tasks.reverse()
    t0 = time.time()
    while tasks or live:
        while tasks and len(live) < a.jobs:
            t = tasks.pop()
            q = ctx.SimpleQueue()
            p = ctx.Process(target=spawn, args=(t, q))
            p.start()
            live.append((p, q, t, time.time()))
        time.sleep(0.02)
        for item in list(live):
            p, q, t, s = item
            if not q.empty():
                _, verdict = q.get()
                p.join()
            elif not p.is_alive():
                verdict = "killed (crash)"
            elif time.time() - s > 300:
                os.kill(p.pid, signal.SIGKILL)
                p.join()
                verdict = "TIMEOUT"
            else:
                continue
            live.remove(item)
            done += 1
            key = verdict.split(" ")[0]
            stat[key] = stat.get(key, 0) + 1
            if not verdict.startswith("killed") or "nofail" in verdict:
                print(f"{verdict}\t{t[1]}:{t[2]}\t{t[3]}", flush=True)
    print("done", stat, f"{time.time() - t0:.0f}s")
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
