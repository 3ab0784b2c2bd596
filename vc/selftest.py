"""Sanity of the verification back ends (setup_cmd)."""
from . import engine as E
from . import term as T


def main():
    def good(ctx):
        x = ctx.real("x")
        ctx.true("abs", abs(x) >= 0)
        ctx.eq("sq", (x + 1) ** 2, x * x + 2 * x + 1)
        ctx.eq("d", ctx.diff(x ** 3, x), 3 * x * x)

    def bad(ctx):
        x = ctx.real("x")
        ctx.true("pos", x * x > 0)
        ctx.eq("sq", (x + 1) ** 2, x * x + 1)

    T.reset()
    r = E.Run("good", good).explore()
    assert r.complete and r.total == 6 and r.proved == 6, (r.total, r.obls)
    r = E.Run("bad", bad).explore()
    assert set(r.obls) == {"pos", "sq"}, r.obls
    assert all(o[0].status == "refuted" for o in r.obls.values())
    import contracts
    n = 0
    for p in contracts.MODULES:
        n += len(contracts.harnesses(p, "quick"))
    print(f"selftest ok, {n} contracts")
    return 0
