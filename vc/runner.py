"""Runs the harnesses of a property, decides, writes evidence and replays."""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"

from . import engine as E          # noqa: E402
from . import term as T            # noqa: E402


class Harness:
    """One function contract (or a small family over one function).

    fn(ctx)      the contract: pre-state, call, postconditions
    repl()       callee contracts used in the symbolic run
    sym          run symbolically (proof); otherwise only concretely
    bounded      text stating the bound, or None when for all inputs
    """

    def __init__(self, name, fn, repl=None, sym=True, conc=4, bounded=None,
                 max_paths=1500, time_s=60.0, assumptions=(), z3_ms=4000,
                 max_depth=400, thorough_conc=None, conc_ok=True):
        self.name = name
        self.fn = fn
        self.repl = repl
        self.sym = sym
        self.conc = conc
        self.bounded = bounded
        self.max_paths = max_paths
        self.time_s = time_s
        self.assumptions = tuple(assumptions)
        self.z3_ms = z3_ms
        self.max_depth = max_depth
        self.thorough_conc = thorough_conc or conc * 10
        self.conc_ok = conc_ok


class _Timeout(Exception):
    pass


def _alarm(sig, frame):
    raise _Timeout()


def _trace_functions(fn, *a):
    """Run fn and return the tespy functions that executed."""
    seen = set()

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(REPO_SRC):
                seen.add(co.co_filename[len(REPO_SRC) + 1:-3].replace(
                    "/", ".") + ":" + co.co_qualname)
    sys.setprofile(prof)
    try:
        fn(*a)
    finally:
        sys.setprofile(None)
    return seen


def _innermost_repo(tb):
    """True if the raising frame is repository code (or a library called by
    it), False if it is harness code."""
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        if f.filename.startswith(REPO_SRC):
            return True
        if f.filename.startswith(ROOT):
            return False
    return False


def _conc_run(h, seed, inputs=None, flags=None):
    ctx = E.ConcCtx(seed, inputs, flags)
    err = None
    try:
        h.fn(ctx)
    except E.PathEnd:
        return ctx, "skip"
    except _Timeout:
        raise
    except E.Unsupported as e:
        return ctx, "unsupported: " + str(e)
    except Exception as e:
        if isinstance(e, (ImportError,)) or not _innermost_repo(
                e.__traceback__) or "FakeWrapper" in str(e):
            return ctx, "harness: " + "".join(traceback.format_exception(
                type(e), e, e.__traceback__, limit=-5))
        err = "".join(traceback.format_exception(
            type(e), e, e.__traceback__, limit=-4))
        ctx.fail("raises-no-exception", err)
    return ctx, None


def run_harness(h, tier, seed):
    """-> dict (picklable)"""
    from . import patch as P
    out = dict(name=h.name, obligations=0, discharged=0, paths=0,
               complete=False, backends={}, solver_s=0.0, queries=0,
               errors=[], open={}, violations=[], functions=[],
               conc_runs=0, conc_obs=0, bounded=h.bounded, notes=[],
               assumptions=list(h.assumptions), hits={}, cross={},
               sym=h.sym)
    t0 = time.time()
    T.reset()
    limit = h.time_s * (6 if tier == "thorough" else 1)
    models = []
    run = None
    if h.sym:
        run = E.Run(h.name, h.fn, max_paths=h.max_paths * (
            5 if tier == "thorough" else 1), time_s=limit, z3_ms=h.z3_ms,
            max_depth=h.max_depth, crosscheck=(tier == "thorough"))
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(limit * 1.5) + 20)
        try:
            with P.patched(h.repl() if h.repl else ()) as hits:
                run.explore()
            out["hits"] = hits
        except _Timeout:
            out["errors"].append("timeout")
            E._CUR[0] = None
        finally:
            signal.alarm(0)
        out.update(obligations=run.total, discharged=run.proved,
                   paths=run.paths, complete=run.complete,
                   backends=run.backends, solver_s=run.stats.solver_s,
                   queries=run.stats.queries, cross=run.cross)
        out["reached"] = run.reached
        out["errors"] += [e[0] for e in run.errors[:5]]
        for name, obs in run.obls.items():
            o = obs[0]
            out["open"][name] = dict(status=o.status, detail=o.detail[:2000],
                                     path=o.path[-30:] if o.path else [],
                                     n=len(obs))
            for o in obs[:3]:
                if o.model is not None:
                    models.append((name, o.model))
        for _, flags in run.errors[:5]:
            models.append(("error", flags))
    # concrete runs on the unpatched code: cross-check and replay
    proved_all = bool(h.sym and run and run.complete and not run.errors
                      and not run.obls and run.total > 0)
    if h.conc_ok:
        n = h.thorough_conc if tier == "thorough" else h.conc
        if not proved_all:
            n = max(n, 12)
        plans = []
        for name, m in models[:8]:
            inp = {k: v for k, v in m.items() if not isinstance(v, bool)}
            fl = {k: v for k, v in m.items() if isinstance(v, bool)}
            plans.append((seed, None, fl))
            plans.append((seed, inp, fl))
            for s in range(4):
                plans.append((seed * 1000 + s, None, fl))
        for s in range(n):
            plans.append((seed * 100 + s, None, None))
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(limit) + 60)
        first = True
        try:
            for s, inp, fl in plans:
                if first:
                    first = False
                    box = []
                    fs = _trace_functions(
                        lambda: box.append(_conc_run(h, s, inp, fl)))
                    out["functions"] = sorted(fs)
                    ctx, st = box[0]
                else:
                    ctx, st = _conc_run(h, s, inp, fl)
                out["conc_runs"] += 1
                out["conc_obs"] += ctx.obs
                if st and st != "skip":
                    if len(out["notes"]) < 3:
                        out["notes"].append(st[:1500])
                for name, detail in ctx.fails[:5]:
                    out["violations"].append(dict(
                        harness=h.name, obligation=name, detail=detail,
                        seed=s, inputs={k: v for k, v in
                                        ctx.inputs.items()},
                        flags=fl or {}, given=inp or {},
                        symbolic=out["open"].get(name)))
                if len(out["violations"]) >= 10:
                    break
        except _Timeout:
            out["notes"].append("concrete runs: timeout")
        finally:
            signal.alarm(0)
    if not out["violations"]:
        # the verifier did not accept an obligation and no concrete input
        # reproduces it: reported, marked as such
        for name, o in list(out["open"].items())[:5]:
            out["violations"].append(dict(
                harness=h.name, obligation=name, detail=o["detail"],
                seed=seed, inputs={}, flags={}, given={}, symbolic=o,
                nofail=True))
        errs = [e for e in out["errors"] if not e.startswith("timeout")]
        if h.conc_ok and (not h.sym or not (
                out["conc_obs"] or out["discharged"])):
            errs += [n for n in out["notes"] if not n.endswith("timeout")]
        if errs and not out["violations"]:
            out["violations"].append(dict(
                harness=h.name, obligation="verifiable", detail=errs[0],
                seed=seed, inputs={}, flags={}, given={},
                symbolic=dict(errors=errs), nofail=True))
    out["wall"] = time.time() - t0
    return out


def _worker(args):
    prop, name, tier, seed = args
    import contracts
    try:
        h = [x for x in contracts.harnesses(prop, tier) if x.name == name][0]
        return run_harness(h, tier, seed)
    except Exception:
        return dict(name=name, obligations=0, discharged=0, paths=0,
                    complete=False, backends={}, solver_s=0, queries=0,
                    errors=["worker: " + traceback.format_exc()], open={},
                    violations=[], functions=[], conc_runs=0, conc_obs=0,
                    bounded=None, notes=[], assumptions=[], hits={},
                    cross={}, sym=True, wall=0)


def load_known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def match_known(known, prop, v):
    for k in known:
        if k.get("status") != "open" or k["property"] != prop:
            continue
        if k["harness"] == v["harness"] and re.fullmatch(
                k["obligation"], v["obligation"]):
            return k
    return None


def check(prop, tier, seed, only=None, jobs=8, verbose=False):
    import contracts
    t0 = time.time()
    hs = contracts.harnesses(prop, tier)
    if only:
        hs = [h for h in hs if re.search(only, h.name)]
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), "duplicate harness names"
    tasks = [(prop, n, tier, seed) for n in names]
    if jobs > 1 and len(tasks) > 1:
        with mp.get_context("fork").Pool(min(jobs, len(tasks)),
                                         maxtasksperchild=20) as pool:
            res = list(pool.imap_unordered(_worker, tasks, chunksize=1))
    else:
        res = [_worker(t) for t in tasks]
    res.sort(key=lambda r: names.index(r["name"]))
    known = load_known()
    viol, seen_known = [], {}
    for r in res:
        for v in r["violations"]:
            k = match_known(known, prop, v)
            if k:
                seen_known[k["id"]] = k
            else:
                viol.append(v)
    write_evidence(prop, tier, seed, hs, res, viol, time.time() - t0)
    total = sum(r["obligations"] for r in res)
    conc = sum(r["conc_obs"] for r in res)
    for r in res:
        if r["sym"] and not r["complete"] and not r["violations"]:
            print(f"UNDECIDED property={prop} contract={r['name']} "
                  f"discharged={r['discharged']}/{r['obligations']} "
                  f"complete={r['complete']} "
                  f"{('; '.join(r['errors']) or '; '.join(r['open']))[:300]}"
                  .replace("\n", " "))
        if verbose:
            for n in r["notes"]:
                print("NOTE", r["name"], n)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop}: contracts={len(res)} obligations={total} discharged="
          f"{sum(r['discharged'] for r in res)} concrete-checks={conc} "
          f"wall={time.time() - t0:.1f}s")
    if viol:
        done = set()
        for v in sorted(viol, key=lambda v: bool(v.get("nofail"))):
            key = (v["harness"], v["obligation"])
            if key in done:
                continue
            done.add(key)
            if len(done) > 8:
                break
            path = write_replay(prop, v)
            print(f"  failed obligation: {v['harness']} / "
                  f"{v['obligation']}: {v['detail'][:300]}".replace(
                      "\n", " | "))
            print(f"VIOLATION property={prop} replay={path}" + (
                " no-failing-input-found" if v.get("nofail") else ""))
        return 1
    if total + conc == 0:
        # nothing was checked at all: the harnesses no longer fit the code
        print(f"UNDECIDED property={prop} no obligation was generated")
    return 0


def write_replay(prop, v):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    hsh = hashlib.sha1((v["harness"] + v["obligation"]).encode()
                       ).hexdigest()[:8]
    name = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{prop}-{v['harness']}-{hsh}")
    path = os.path.join(d, name + ".json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, **v,
                       command=f"/verif/check --replay {path}"),
                  f, indent=1, default=str)
    return path


TRUSTED = [
    "CPython, numpy, pandas and CoolProp behave as documented",
    "the symbolic executor in /verif/vc (engine.py, term.py, patch.py); "
    "cross-checked on every run by executing the same contracts on the "
    "unpatched code with floats",
    "z3 (path feasibility, refutation, non-polynomial obligations)",
]

ASSUME = [
    "machine floats are treated as mathematical reals in the proofs; float "
    "constants are read as their shortest decimal and constants that differ "
    "by less than 1e-9 relative are identified",
    "denominators, logarithm arguments and even roots met on a path are "
    "assumed defined (recorded as side conditions of the path)",
]


def write_evidence(prop, tier, seed, hs, res, viol, wall):
    import contracts
    info = contracts.INFO.get(prop, {})
    funcs = sorted({f for r in res for f in r["functions"]})
    total = sum(r["obligations"] for r in res)
    disc = sum(r["discharged"] for r in res)
    back = {}
    for r in res:
        for k, n in r["backends"].items():
            back[k] = back.get(k, 0) + n
    hits = {}
    for r in res:
        for k, n in r["hits"].items():
            hits[k] = n
    bounded = [dict(contract=r["name"], bound=r["bounded"])
               for r in res if r["bounded"]]
    undec = [dict(contract=r["name"], open=list(r["open"])[:10],
                  errors=[e[:300] for e in r["errors"]],
                  complete=r["complete"])
             for r in res if r["sym"] and (
                 r["discharged"] < r["obligations"] or r["errors"] or
                 not r["complete"])]
    cross = {}
    for r in res:
        for k, n in r["cross"].items():
            cross[k] = cross.get(k, 0) + n
    assumptions = ASSUME + list(info.get("assumptions", [])) + sorted(
        {a for r in res for a in r["assumptions"]})
    if hits:
        assumptions.append(
            "callees replaced by their contract in symbolic runs: " +
            ", ".join(sorted(hits)))
    for b in bounded:
        assumptions.append(f"bounded, not proved: {b['contract']}: "
                           f"{b['bound']}")
    cov = dict(
        obligations=total, discharged=disc,
        checker_cmd=f"/verif/check {prop} --tier {tier}",
        trusted_base=TRUSTED,
        contracts=len(res),
        functions_under_contract=funcs,
        n_functions=len(funcs),
        paths=sum(r["paths"] for r in res),
        backends=back, solver_s=round(sum(r["solver_s"] for r in res), 2),
        solver_queries=sum(r["queries"] for r in res),
        z3_crosscheck_of_normaliser=cross,
        concrete_runs=sum(r["conc_runs"] for r in res),
        concrete_obligations=sum(r["conc_obs"] for r in res),
        undecided=undec, bounded=bounded,
        per_contract=[dict(name=r["name"], obligations=r["obligations"],
                           discharged=r["discharged"], paths=r["paths"],
                           complete=r["complete"],
                           concrete=r["conc_obs"],
                           wall=round(r["wall"], 2)) for r in res],
        samples=sum(r["conc_runs"] for r in res))
    level = info.get("level", "proof")
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=cov, assumptions=assumptions,
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def replay(path):
    import contracts
    v = json.load(open(path))
    h = [x for x in contracts.harnesses(v["property"], "quick")
         if x.name == v["harness"]]
    if not h:
        print("harness not found")
        return 2
    ctx, st = _conc_run(h[0], v["seed"], v.get("given") or None,
                        v.get("flags") or None)
    for name, detail in ctx.fails:
        print("FAILED", name, detail)
    if st:
        print(st)
    return 1 if ctx.fails else 0
