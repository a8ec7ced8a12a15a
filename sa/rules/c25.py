"""C25: projection and ray tracing geometry."""

TECHNIQUE = "symbolic value-graph comparison (normal form and polynomial identity testing) of projection and ray tracing with reference formulas"
from ..rulekit import *


def check(ctx):
    ctx.rule("The value graphs of ray tracing, of the transformation into the glass frame and back, and of the projection "
             "are compared with the optical geometry (planes at the stated distances, vector form of Snell's law, "
             "collinearity equations) on symbolic cameras; batch routines are compared element by element with the single-point ones.")
    cs = cal_sets("cal", "c")
    mmset = ()
    x, y = syms("x", "y")
    f = ctx.func("ray_tracing", "ray_tracing")
    if f is not None:
        r = ctx.run("ray_tracing", "ray_tracing", (x, y), sets=cs)
        if r is not None:
            w = ctx.spec("s_trace", {"x": x, "y": y}, sets=cs).ret()
            got = r.ret()
            ctx.same("trace:point", where(f), part(got, 0), part(w, 0), "point where the ray leaves the glass")
            ctx.same("trace:direction", where(f), part(got, 1), part(w, 1), "direction of the refracted ray")
    # glass frame
    pos = vec("pos", 3)
    f = ctx.func("multimed", "trans_cam_point")
    if f is not None and ctx.func("multimed", "back_trans_point") is not None:
        r = attempt(ctx, f, lambda: ctx.spec("s_round", {"pos": pos}, sets=cs))
        if r is not None:
            ctx.same("glass:round-trip", where(f), r.ret(), pos, "a point taken into the glass frame and back stays where it is")
        r = ctx.run("multimed", "trans_cam_point", {f.params[0]: None, f.params[3]: pos} if False else glass_args(f, pos), sets=glass_sets(f))
        if r is not None:
            w = ctx.spec("s_glassframe", {"pos": pos}, sets=cs).ret()
            got = r.ret()
            ctx.same("glass:point", where(f), part(got, 0), part(w, 0), "lateral distance to the camera axis and depth of the point in the glass frame")
            ctx.same("glass:camera", where(f), part(got, 3), part(w, 1), "distance of the camera from the glass plane")
            ctx.same("glass:foot", where(f), part(got, 1), part(w, 2), "foot of the point on the glass plane")
    # projection
    f = ctx.func("imgcoord", "flat_image_coord")
    if f is not None:
        air = cs + (("mm.n1", ONE), ("mm.nlay", ONE), ("mm.n3", ONE), ("mm.n2", seq([ONE], "list")))
        r = ctx.run("imgcoord", "flat_image_coord", (pos,), sets=air)
        if r is not None:
            w = ctx.spec("s_air", (pos,), sets=air).ret()
            ctx.same("project:air", where(f), r.ret(), w, "collinearity equations when nothing refracts")
        opq = ("fast_multimed_r_nlay",)
        mmw = cs + (("mm.n2", vec("n2", 1, "list")), ("mm.d", vec("d", 1, "list")), ("mm.nlay", ONE))
        r = ctx.run("imgcoord", "flat_image_coord", (pos,), sets=mmw, opaque=opq)
        if r is not None:
            w = ctx.spec("s_water", (pos,), sets=mmw, opaque=opq).ret()
            mm_ = mk("sym", "mm")
            nonair = ne(mk("sel", mm_, string("n1")), ONE)
            ctx.same("project:water", where(f), r.ret(), w, "collinearity equations of the radially shifted point", nonair)
    for q in ("img_coord",):
        f = ctx.func("imgcoord", q)
        if f is not None:
            opq = ("flat_image_coord",)
            r = ctx.run("imgcoord", q, (pos,), sets=cs, opaque=opq)
            if r is not None:
                w = ctx.spec("s_img", (pos,), sets=cs, opaque=opq).ret()
                ctx.same("project:distorted", where(f), r.ret(), w, "flat projection followed by the distortion model", soft=("flat_image_coord",))
    # batch versions
    for q, one in (("flat_image_coordinates", "flat_image_coord"), ("image_coordinates", "img_coord")):
        f = ctx.func("imgcoord", q)
        if f is None or ctx.func("imgcoord", one) is None:
            continue
        for n in (1, 3):
            rows = mat("P", n, 3)
            r = ctx.run("imgcoord", q, (rows,), opaque=(one,), sets=cs)
            if r is None:
                continue
            r2 = ctx.run("imgcoord", q, (rows,), opaque=("img_coord", "flat_image_coord"), sets=cs)
            other = None
            for i in range(n if r2 is not None else 0):
                for j in range(2):
                    t = r2.elem(r2.value, i, j)
                    if t.op == "sel" and t.args[0].op == "call" and t.args[0].args[0].split(".")[-1] in ("img_coord", "flat_image_coord") and t.args[0].args[0].split(".")[-1] != one:
                        other = t.args[0].args[0].split(".")[-1]
            if other:
                ctx.bad("batch:" + q, where(f), "the array variant of %s returns the result of %s" % (one, other))
                continue
            for i in range(n):
                got = [r.elem(r.value, i, j) for j in range(2)]
                w = ctx.spec("s_" + one, (elems(rows)[i],), opaque=(one,), sets=cs)
                want = [w.elem(w.value, j) for j in range(2)]
                ctx.same("batch:" + q, where(f), seq(got, "list"), seq(want, "list"),
                         "row %d of %d is the projection of point %d" % (i, n, i), soft=(one,))


def glass_args(f, pos):
    return {f.params[2]: vec("glass:c", 3), f.params[3]: pos}


def glass_sets(f):
    c = mk("sym", "cal")
    e = mk("sel", c, string("ext_par"))
    return tuple((f.params[0] + "." + k, mk("sel", e, string(k))) for k in ("x0", "y0", "z0"))


def part(t, i):
    return elems(t)[i] if t.op == "seq" and len(elems(t)) > i else mk("unk", "part")


def attempt(ctx, f, g):
    try:
        return g()
    except (Undecided, TooBig) as ex:
        ctx.unk("analysis", where(f), str(ex))
        return None
