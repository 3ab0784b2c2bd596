"""C02: component residuals are the documented equations."""
from vc.runner import Harness

from .equations import EQS
from .jacobian import repl


def same(ctx, name, a, b, tol=1e-7, scale=None):
    """a == b or a == -b: an equation may be written either way round."""
    if ctx.mode == "conc":
        try:
            if abs(a + b) < abs(a - b):
                b = -b
        except TypeError:
            pass
        ctx.eq(name, a, b, tol=tol, scale=scale)
    else:
        from vc.engine import Sym, is_sym, lift
        import vc.term as T
        if is_sym(a) or is_sym(b):
            try:
                if not ctx.norm.equal(lift(a), lift(b)) and \
                        ctx.norm.equal(lift(a), T.neg(lift(b))):
                    b = -b
            except (T.TooBig, ZeroDivisionError):
                pass
        ctx.eq(name, a, b)


def _match(ctx, a, b, tol, scale):
    """is a == +-b, cheaply (no obligation)"""
    if ctx.mode == "conc":
        s = max(abs(b), scale or 0.0, 1e-300)
        return min(abs(a - b), abs(a + b)) <= tol * s
    from vc.engine import is_sym, lift
    import vc.term as T
    if not (is_sym(a) or is_sym(b)):
        return a == b or a == -b
    try:
        x, y = lift(a), lift(b)
        return ctx.norm.equal(x, y) or ctx.norm.equal(x, T.neg(y))
    except (T.TooBig, ZeroDivisionError):
        return False


def align(ctx, res, exp, tol=1e-7, scale=None):
    """The order of equations within a component is not part of the
    contract: expected equations in the order of the residuals (equations
    without exact counterpart fill the remaining places in order)."""
    if all(_match(ctx, r, x, tol, scale) for r, x in zip(res, exp)):
        return list(range(len(res)))
    free = list(range(len(exp)))
    out = [None] * len(res)
    for k, r in enumerate(res):
        cand = [j for j in ([k] if k in free else []) + free
                if _match(ctx, r, exp[j], tol, scale)]
        if cand:
            out[k] = cand[0]
            free.remove(cand[0])
    for k in range(len(res)):
        if out[k] is None:
            out[k] = k if k in free else free[0]
            free.remove(out[k])
    return out


def harnesses(tier, eqs=EQS):
    out = []
    for e in eqs:
        if e.no_c02 or e.spec is None:
            continue

        def fn(ctx, e=e):
            b = e.make(ctx)(flags=True)
            if e.assume:
                e.assume(b)
            b.preprocess()
            b.comp.it = 0
            res = b.solve()
            exp = (e.mand(b) if e.mand else []) + e.spec(b)
            ctx.true(f"{e.label}:number-of-equations", len(res) == len(exp))
            scale = None
            if ctx.mode == "conc":
                scale = max([1e-9] + [abs(v["val"]) for v in b.vars]) * 1e-3
            if len(res) == len(exp):
                order = align(ctx, res, exp, e.tol / 50, scale)
                for k, r in enumerate(res):
                    x = exp[order[k]]
                    same(ctx, f"{e.label}:residual[{k}]", r, x, scale=scale,
                         tol=e.tol / 50)
        out.append(Harness("res:" + e.label, fn, repl=repl, conc=e.conc))
    return out
