"""C07: characteristic lines and maps."""
import json
import os

import numpy as np

from vc import term as TT
from vc.bench import Bench
from vc.engine import Sym, is_sym
from vc.runner import Harness

from .jacobian import repl as frepl


def searchsorted(orig):
    """contract of np.searchsorted (left): number of entries < v"""
    def f(a, v, *r, **k):
        if not is_sym(v) and not any(is_sym(x) for x in np.ravel(a)):
            return orig(a, v, *r, **k)
        if r or k.get("side", "left") != "left":
            side = r[0] if r else k["side"]
        else:
            side = "left"
        n = 0
        for x in a:
            if (x < v) if side == "left" else (x <= v):
                n += 1
            else:
                break
        return n
    return f


class patched_np:
    def __enter__(self):
        self.o = np.searchsorted
        np.searchsorted = searchsorted(self.o)

    def __exit__(self, *a):
        np.searchsorted = self.o


def oarr(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def line(ctx, n, extrapolate):
    from tespy.tools.characteristics import CharLine
    xs = [ctx.real(f"x{i}", typ=(i, i + 0.9)) for i in range(n)]
    ys = [ctx.real(f"y{i}", typ=(-2, 2)) for i in range(n)]
    for a, b in zip(xs, xs[1:]):
        ctx.assume(a < b)
    ln = CharLine(x=list(range(n)), y=list(range(n)),
                  extrapolate=extrapolate)
    if ctx.mode == "sym":
        ln.x, ln.y = oarr(xs), oarr(ys)
    else:
        ln = CharLine(x=xs, y=ys, extrapolate=extrapolate)
    return ln, xs, ys


def interp(xs, ys, v, extrapolate):
    """documented value: piecewise linear, constant or linear outside"""
    n = len(xs)
    if v <= xs[0]:
        if not extrapolate:
            return ys[0]
        i = 1
    elif v > xs[-1]:
        if not extrapolate:
            return ys[-1]
        i = n - 1
    else:
        i = 1
        while not (v <= xs[i]):
            i += 1
    return ys[i - 1] + (v - xs[i - 1]) * (ys[i] - ys[i - 1]) / (
        xs[i] - xs[i - 1])


def line_eval(n, ex):
    def fn(ctx):
        ln, xs, ys = line(ctx, n, ex)
        v = ctx.real("v", typ=(-2, n + 2))
        with patched_np():
            r = ln.evaluate(v)
            exp = interp(xs, ys, v, ex)
            ctx.eq("value", r, exp, tol=1e-9, scale=1e-3)
            # knots are met exactly
            for i in range(n):
                ctx.eq(f"knot[{i}]", ln.evaluate(xs[i]), ys[i], tol=1e-9,
                       scale=1e-3)
        for i in range(n):
            ctx.true("data-untouched", ln.x[i] is xs[i] and ln.y[i] is ys[i]
                     if ctx.mode == "sym" else
                     ln.x[i] == xs[i] and ln.y[i] == ys[i])
        if not ex and ctx.mode == "sym":
            pass
    return Harness(f"line:{n}points{',extrapolated' if ex else ''}", fn,
                   repl=lambda: [], conc=10,
                   bounded=f"number of points = {n}; all real coordinates")


def line_range(n):
    """values stay between the smallest and the largest y"""
    def fn(ctx):
        ln, xs, ys = line(ctx, n, False)
        v = ctx.real("v", typ=(-2, n + 2))
        with patched_np():
            r = ln.evaluate(v)
        lo = hi = ys[0]
        for y in ys[1:]:
            if y < lo:
                lo = y
            if y > hi:
                hi = y
        e = 0 if ctx.mode == "sym" else 1e-12
        ctx.true("not-below", r >= lo - e)
        ctx.true("not-above", r <= hi + e)
    return Harness(f"line-range:{n}points", fn, repl=lambda: [], conc=10,
                   bounded=f"number of points = {n}")


def warned(fn):
    """messages of logger.warning raised by fn()"""
    from tespy.tools import logger
    msgs = []
    orig = logger.warning
    logger.warning = lambda msg, *a, **k: msgs.append(msg)
    try:
        fn()
    finally:
        logger.warning = orig
    return msgs


def line_domain():
    def fn(ctx):
        ln, xs, ys = line(ctx, 3, False)
        # the message rounds the point: integers keep it exact
        v = ctx.choice("v", [-7, 0.5, 1.5, 11])
        ln.x = np.array([0.0, 1.0, 2.0])
        m = warned(lambda: ln.get_domain_errors(v, "compo"))
        out = v < 0 or v > 2
        ctx.true("warned-iff-outside", len(m) == (1 if out else 0))
        for s in m:
            ctx.true("names-the-component", "compo" in s)
            ctx.true("names-the-violated-limit",
                     (("0.0" if v < 0 else "2.0") in s))
    return Harness("line-domain", fn, repl=lambda: [],
                   bounded="listed points")


def cmap(ctx, nx, ny):
    from tespy.tools.characteristics import CharMap
    xs = [ctx.real(f"x{i}", typ=(i, i + 0.9)) for i in range(nx)]
    ys = [[ctx.real(f"y{i}{j}", typ=(j, j + 0.9)) for j in range(ny)]
          for i in range(nx)]
    zs = [[ctx.real(f"z{i}{j}", typ=(-2, 2)) for j in range(ny)]
          for i in range(nx)]
    for a, b in zip(xs, xs[1:]):
        ctx.assume(a < b)
    for row in ys:
        for a, b in zip(row, row[1:]):
            ctx.assume(a < b)
    cm = CharMap(x=list(range(nx)), y=[[1.0] * ny] * nx, z=[[1.0] * ny] * nx)
    if ctx.mode == "sym":
        cm.x = oarr(xs)
        cm.y = np.array(ys, dtype=object)
        cm.z = np.array(zs, dtype=object)
    else:
        cm = CharMap(x=xs, y=ys, z=zs)
    return cm, xs, ys, zs


def map_rows(xs, ys, zs, v):
    if v <= xs[0]:
        return ys[0], zs[0]
    if v > xs[-1]:
        return ys[-1], zs[-1]
    i = 1
    while not (v <= xs[i]):
        i += 1
    f = (v - xs[i - 1]) / (xs[i] - xs[i - 1])
    return ([a + f * (b - a) for a, b in zip(ys[i - 1], ys[i])],
            [a + f * (b - a) for a, b in zip(zs[i - 1], zs[i])])


def map_eval(nx, ny):
    def fn(ctx):
        cm, xs, ys, zs = cmap(ctx, nx, ny)
        v = ctx.real("v", typ=(-2, nx + 2))
        w = ctx.real("w", typ=(-2, ny + 2))
        with patched_np():
            ya, za = cm.evaluate_x(v)
            ye, ze = map_rows(xs, ys, zs, v)
            for j in range(ny):
                ctx.eq(f"yarr[{j}]", ya[j], ye[j], tol=1e-9, scale=1e-3)
                ctx.eq(f"zarr[{j}]", za[j], ze[j], tol=1e-9, scale=1e-3)
            exp = interp(list(ye), list(ze), w, False)
            ctx.eq("evaluate_y", cm.evaluate_y(w, ya, za), exp, tol=1e-9,
                   scale=1e-3)
            ctx.eq("evaluate", cm.evaluate(v, w), exp, tol=1e-9, scale=1e-3)
        for i in range(nx):
            for j in range(ny):
                ctx.true("data-untouched", cm.y[i][j] is ys[i][j] and
                         cm.z[i][j] is zs[i][j] if ctx.mode == "sym" else
                         cm.y[i][j] == ys[i][j] and cm.z[i][j] == zs[i][j])
    return Harness(f"map:{nx}x{ny}", fn, repl=lambda: [], conc=10,
                   bounded=f"map size {nx}x{ny}; all real coordinates")


def map_domain():
    def fn(ctx):
        from tespy.tools.characteristics import CharMap
        cm = CharMap(x=[1.0, 2.0, 3.0], y=[[1.0, 2.0, 3.0]] * 3,
                     z=[[5.0, 6.0, 7.0]] * 3)
        v = ctx.choice("v", [0.25, 1.0, 1.5, 3.0, 4.75])
        w = ctx.choice("w", [0.25, 1.0, 1.5, 3.0, 4.75])
        m = warned(lambda: cm.get_domain_errors(v, w, "compo"))
        bad = [(k, q) for k, q in (("X", v), ("Y", w))
               if q < 1 or q > 3]
        ctx.true("warned-iff-outside", len(m) == len(bad))
        for s, (k, q) in zip(m, bad):
            ctx.true("names-component-and-limit", "compo" in s and
                     k + "=" + str(q) in s and
                     ("1.0" if q < 1 else "3.0") in s)
    return Harness("map-domain", fn, repl=lambda: [],
                   bounded="listed points")


# --------------------------------------------------- compressor with its maps
def comp_map(which, xrange, igva):
    def fn(ctx):
        from tespy.tools.characteristics import CharMap
        b = Bench(ctx, "Compressor", share={0: 0}, flags=True)
        i, o = b.inl[0], b.outl[0]
        X = [0.9, 1.1]
        Y = [[0.5, 1.0, 1.5], [0.6, 1.1, 1.6]]
        Z = [[1.2, 1.0, 0.7], [1.3, 1.1, 0.8]]
        cm = CharMap(x=X, y=Y, z=Z)
        dat = b.comp.get_attr("char_map_" + which)
        dat.char_func = cm
        dat.is_set = True
        g = ctx.real("igva", lo=-50, hi=50, typ=(-10, 10)) if igva else 0.0
        b.comp.igva.val = g
        par = b.comp.get_attr("pr" if which == "pr" else "eta_s")
        par.design = ctx.real("design", lo=0.1, typ=(0.5, 3))
        i.m.design = ctx.real("m.design", lo=0.1, typ=(1, 5))
        i.p.design = ctx.real("p.design", lo=1, typ=(1e5, 2e5))
        Tin = i.fluid_data["H2O"]["wrapper"].T_ph(i.p.val_SI, i.h.val_SI)
        q = {"low": 0.5, "in": 1.0, "high": 1.5}[xrange]
        # position on the x-axis of the map, by the design temperature
        i.T.design = Tin * q * q if ctx.mode == "conc" else \
            ctx.real("T.design", lo=1)
        if ctx.mode == "sym":
            r0 = i.T.design / Tin
            sq = r0 ** 0.5
            ctx.assume(sq > 0)
            if xrange == "low":
                ctx.assume(sq <= 0.9)
            elif xrange == "high":
                ctx.assume(sq > 1.1)
            else:
                ctx.assume(sq > 0.9)
                ctx.assume(sq <= 1.1)
            xx = sq
        else:
            xx = q
        y = i.m.val_SI * i.p.design / (i.m.design * i.p.val_SI * xx)
        ye, ze = map_rows(X, Y, Z, xx)
        ye = [a * (1 - g / 100) for a in ye]
        if which == "pr":
            ze = [a * (1 - g / 100) for a in ze]
        else:
            ze = [a * (1 - g ** 2 / 10000) for a in ze]
        with patched_np():
            f = getattr(b.comp, f"char_map_{which}_func")
            r1 = f()
            r2 = f()
            z = interp(ye, ze, y, False)
        if which == "pr":
            exp = o.p.val_SI / i.p.val_SI - z * par.design
        else:
            w = i.fluid_data["H2O"]["wrapper"]
            his = w.isentropic(i.p.val_SI, i.h.val_SI, o.p.val_SI)
            exp = (his - i.h.val_SI) / (o.h.val_SI - i.h.val_SI) - \
                z * par.design
        ctx.eq("residual", r1, exp, tol=1e-6, scale=1e-2)
        ctx.eq("second-evaluation", r2, exp, tol=1e-6, scale=1e-2)
        for k in range(2):
            for j in range(3):
                ctx.eq("map-unchanged", cm.y[k][j], Y[k][j], tol=1e-12)
                ctx.eq("map-unchanged", cm.z[k][j], Z[k][j], tol=1e-12)
    return Harness(f"compressor:char_map_{which},{xrange}"
                   f"{',igva' if igva else ''}", fn, repl=frepl,
                   bounded="one 2x3 map; all states", time_s=90)


def defaults():
    """loading a shipped characteristic gives exactly the shipped data"""
    def fn(ctx):
        import tespy
        from tespy.tools.characteristics import (CharLine, CharMap,
                                                 load_default_char)
        for name, cls in (("char_lines", CharLine), ("char_maps", CharMap)):
            with open(os.path.join(tespy.__datapath__, name + ".json")) as f:
                data = json.load(f)
            for comp in data:
                for par in data[comp]:
                    for k, d in data[comp][par].items():
                        o = load_default_char(comp, par, k, cls)
                        ok = isinstance(o, cls)
                        for q in ("x", "y") + (
                                ("z",) if cls is CharMap else ()):
                            ok = ok and np.array_equal(
                                np.array(o.get_attr(q), dtype=float),
                                np.array(d[q], dtype=float))
                        ctx.true(f"{name}:{comp}.{par}.{k}", ok)
                        if cls is CharLine:
                            ctx.true("sorted", bool(np.all(
                                np.diff(o.x) > 0)))
    return Harness("load_default_char", fn, sym=False, conc=1,
                   thorough_conc=1,
                   bounded="all shipped characteristics, enumerated")


def custom():
    def fn(ctx):
        import shutil
        import tempfile
        from tespy.tools.characteristics import (CharLine, CharMap,
                                                 load_custom_char)
        old = os.environ.get("HOME")
        tmp = tempfile.mkdtemp(prefix="verif-home-",
                               dir=os.environ.get("VERIF_SCRATCH"))
        os.environ["HOME"] = tmp
        try:
            try:
                load_custom_char("a", CharLine)
                ctx.true("missing-file-refused", False)
            except FileNotFoundError:
                ctx.true("missing-file-refused", True)
            d = os.path.join(tmp, ".tespy", "data")
            os.makedirs(d, exist_ok=True)
            x = [ctx.real(f"x{i}", typ=(i, i + 1)) for i in range(3)]
            y = [ctx.real(f"y{i}") for i in range(3)]
            json.dump({"a": {"x": x, "y": y}, "b": {"x": y, "y": x}},
                      open(os.path.join(d, "char_lines.json"), "w"))
            json.dump({"a": {"x": x[:2], "y": [x, y], "z": [y, x]}},
                      open(os.path.join(d, "char_maps.json"), "w"))
            ln = load_custom_char("a", CharLine)
            ctx.true("line", list(ln.x) == x and list(ln.y) == y)
            m = load_custom_char("a", CharMap)
            ctx.true("map", list(m.x) == x[:2] and
                     m.y.tolist() == [x, y] and m.z.tolist() == [y, x])
        finally:
            if old is not None:
                os.environ["HOME"] = old
            shutil.rmtree(tmp, ignore_errors=True)
    return Harness("load_custom_char", fn, sym=False, conc=3,
                   bounded="sampled data")


def ctor():
    def fn(ctx):
        from tespy.tools.characteristics import CharLine, CharMap
        for bad in ((CharLine, dict(x=[1, 2, 3], y=[1, 2])),
                    (CharMap, dict(x=[1, 2, 3], y=[[1, 2], [1, 2]],
                                   z=[[1, 2], [1, 2]])),
                    (CharMap, dict(x=[1, 2], y=[[1, 2], [1, 2]],
                                   z=[[1, 2, 3], [1, 2, 3]]))):
            try:
                bad[0](**bad[1])
                ctx.true("mismatch-refused", False)
            except ValueError:
                ctx.true("mismatch-refused", True)
        x = [ctx.real(f"x{i}", typ=(i, i + 1)) for i in range(3)]
        y = [ctx.real(f"y{i}") for i in range(3)]
        for conv in (list, np.array):
            a = CharLine(conv(x), conv(y))
            ctx.true("line-data", list(a.x) == x and list(a.y) == y)
            s = a._serialize()
            b = CharLine(**s)
            ctx.true("line-round-trip", list(b.x) == x and list(b.y) == y
                     and b.extrapolate == a.extrapolate)
        c = CharLine(x, y, extrapolate=True)
        ctx.true("extrapolate-kept", CharLine(
            **c._serialize()).extrapolate is True)
        m = CharMap([1, 2], [x, y], [y, x])
        n = CharMap(**m._serialize())
        ctx.true("map-round-trip", n.x.tolist() == [1, 2] and
                 n.y.tolist() == [x, y] and n.z.tolist() == [y, x])
    return Harness("constructors", fn, sym=False, conc=5,
                   bounded="sampled data")


def harnesses(tier):
    out = [line_eval(n, e) for n in (2, 3, 4) for e in (False, True)]
    out += [line_range(n) for n in (2, 3)]
    out += [map_eval(2, 2), map_eval(3, 2), map_eval(2, 3)]
    out += [line_domain(), map_domain()]
    out += [comp_map(w, x, g) for w in ("pr", "eta_s")
            for x in ("low", "in", "high") for g in (False, True)]
    out += [defaults(), custom(), ctor()]
    return out
