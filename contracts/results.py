"""C03: a reported component result satisfies its own defining equation."""
from vc.runner import Harness

from .equations import EQS, T, m, v
from .jacobian import repl


def solved_state(b):
    """post-processing of the connections, as contracted in C04"""
    for c in b.conns:
        if b.ctx.mode == "conc" and len(c.fluid_data) > 1:
            c.T.val_SI, c.vol.val_SI = 400.0, 0.5   # not an input to results
        else:
            c.T.val_SI = T(c)
            c.vol.val_SI = v(c)
        c.v.val_SI = m(c) * c.vol.val_SI
        for prop in ("p", "h", "m", "T", "vol", "v"):
            dc = c.get_attr(prop)
            dc.val = dc.val_SI


def harnesses(tier, eqs=EQS):
    out = []
    for e in eqs:
        if e.no_result or e.spec is None or not e.pars:
            continue

        def fn(ctx, e=e):
            b = e.make(ctx)(flags=True)
            if e.assume:
                e.assume(b)
            if e.res_assume:
                e.res_assume(b)
            b.preprocess()
            solved_state(b)
            before = {k: b.comp.get_attr(k).val for k in e.pars}
            b.comp.calc_parameters()
            keys = [k for k in e.pars
                    if b.comp.get_attr(k).val is not before[k]]
            ctx.true(f"{e.label}:result-is-reported", bool(keys))
            i = 0
            if ctx.mode == "conc":
                big = max(abs(v["val"]) for v in b.vars)
            # the documented equation holds for the reported value
            spec = e.spec(b)
            n = 1 if type(b.comp).__name__ == "Condenser" else len(spec)
            for k, r in enumerate(spec[:n]):
                s = None
                if ctx.mode == "conc":
                    s = max([big * 1e-3] + [abs(b.comp.get_attr(x).val)
                                            for x in keys])
                    ctx.eq(f"{e.label}:reported-value-solves-equation[{k}]",
                           r / s, 0.0, tol=1e-6, scale=1.0)
                else:
                    ctx.eq(f"{e.label}:reported-value-solves-equation[{k}]",
                           r, 0.0)
            # and the real residual function agrees
            d = b.comp.get_attr(keys[0]) if keys else None
            if d is not None and getattr(d, "func", None) and len(keys) == 1:
                r = d.func(**d.func_params)
                if ctx.mode == "conc":
                    ctx.eq(f"{e.label}:residual-at-reported-value", r / s,
                           0.0, tol=1e-6, scale=1.0)
                else:
                    ctx.eq(f"{e.label}:residual-at-reported-value", r, 0.0)
        out.append(Harness("result:" + e.label, fn, repl=repl, conc=e.conc))

    if eqs is not EQS:
        return out

    def amb(ctx):
        """in- and outlet temperature on different sides of the ambient
        temperature: no logarithmic difference exists, nothing is raised"""
        from vc.bench import Bench
        b = Bench(ctx, "SimpleHeatExchanger", share={0: 0}, flags=True,
                  typ={"i0.h": (-2e5, 5e3), "o0.h": (2e5, 4e5)})
        b.par("Tamb", typ=(285, 300))
        solved_state(b)
        ctx.assume((b.inl[0].T.val_SI - b.comp.Tamb.val_SI) *
                   (b.outl[0].T.val_SI - b.comp.Tamb.val_SI) < 0)
        b.comp.calc_parameters()
        k = b.comp.kA.val
        ctx.true("ambient-enclosed:kA-undefined", k != k)
    out.append(Harness("result:SimpleHeatExchanger.kA_enclosed", amb,
                       repl=repl))

    def closer(flin, flout):
        def fn(ctx):
            """deviations at a cycle closer: distance of the two sides in
            mass flow and in composition, whatever fluids a side has"""
            from vc.bench import Bench
            b = Bench(ctx, "CycleCloser", share={})
            i, o = b.inl[0], b.outl[0]
            x = [{f: ctx.real(f"{n}.{f}", 0, 1, typ=(0.1, 0.9)) for f in fl}
                 for n, fl in (("in", flin), ("out", flout))]
            i.fluid.val, o.fluid.val = dict(x[0]), dict(x[1])
            b.comp.calc_parameters()
            d = b.comp.mass_deviation.val
            ctx.true("mass-deviation>=0", d >= 0)
            ctx.eq("mass-deviation", d * d, (m(i) - m(o)) ** 2)
            d = b.comp.fluid_deviation.val
            e = [x[0].get(f, 0) - x[1].get(f, 0)
                 for f in sorted(set(flin) | set(flout))]
            if len(e) == 1:
                ctx.true("fluid-deviation>=0", d >= 0)
                ctx.eq("fluid-deviation", d * d, e[0] ** 2)
            else:
                ctx.eq("fluid-deviation", d, sum(y * y for y in e) ** 0.5)
            for c, y in ((i, x[0]), (o, x[1])):
                ctx.true("composition-kept", set(c.fluid.val) == set(y))
                for f in y:
                    ctx.eq("composition-kept", c.fluid.val[f], y[f])
        return Harness(f"result:CycleCloser[{','.join(flin)}|"
                       f"{','.join(flout)}]", fn, repl=repl)
    for a, c in (("A", "A"), ("AB", "AB"), ("AB", "A"), ("A", "AB"),
                 ("A", "B"), ("ABC", "BCD")):
        out.append(closer(tuple(a), tuple(c)))
    return out
