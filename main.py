import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
for p in (os.path.join(HERE, "build", "site"),
          "/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
    if os.path.isdir(p):
        sys.path.append(p)
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import tempfile
    scratch = tempfile.mkdtemp(prefix="verif-")
    os.environ["VERIF_SCRATCH"] = scratch
    os.environ["HOME"] = scratch      # tespy may write ~/.tespy
    try:
        import tespy.networks  # noqa: F401
        import tespy.tools.optimization  # noqa: F401
        from vc import runner
        import contracts  # noqa: F401
        import tespy
        assert tespy.__file__.startswith("/repo/src/"), tespy.__file__
        if a.selftest:
            from vc import selftest
            return selftest.main()
        if a.replay:
            return runner.replay(a.replay)
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return runner.check(a.property, a.tier, seed, a.only, a.jobs, a.v)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
