"""C01: Jacobian entries are the partial derivatives of the residuals."""
from vc import patch as P
from vc.bench import check_guards, check_jacobian
from vc.engine import cur
from vc.runner import Harness

from .equations import EQS, brentq_contract


def repl():
    r = P.fluid_repl()
    import tespy.tools.fluid_properties.helpers as H

    def dff(re, ks, d):
        return cur().fn("darcy_friction_factor", re, ks, d, positive=True)
    r.append((H.darcy_friction_factor, dff))
    from scipy.optimize import brentq
    r.append((brentq, brentq_contract))
    return r


def harnesses(tier, eqs=EQS):
    out = []
    for e in eqs:
        if e.no_c01:
            continue

        def fn(ctx, e=e):
            check_jacobian(ctx, e.make(ctx), e.label, tol=e.tol,
                           complete_x=e.complete_x, assume=e.assume,
                           free_x=e.free_x)
        out.append(Harness("jac:" + e.label, fn, repl=repl, conc=e.conc))

        def gd(ctx, e=e):
            if ctx.mode == "sym":
                return
            check_guards(ctx, e.make(ctx), e.label,
                         pairs=(tier == "thorough"))
        out.append(Harness(
            "guard:" + e.label, gd, sym=False, conc=1, thorough_conc=3,
            bounded="one fixed or converged variable at a time, and all fixed "
                    "(thorough: all subsets of up to 7 variables, all pairs "
                    "beyond), sampled state"))
    return out
