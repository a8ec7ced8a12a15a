"""C26: geometric helpers."""

TECHNIQUE = "symbolic value-graph comparison (normal form and polynomial identity testing) of the geometric helpers with reference formulas"
from ..rulekit import *

V = "vec_utils"


def check(ctx):
    ctx.rule("The value graph of every helper is compared, component by component and on symbolic arguments, with a "
             "reference definition of the quantity it is named for.")
    a, b = vec("a", 3), vec("b", 3)
    s = syms("s")

    def pair(qual, args, specq, sargs, msg, under=TRUE, mod=V):
        r = ctx.run(mod, qual, args)
        if r is None:
            return
        p = r.func.params
        w = ctx.spec(specq, sargs).ret()
        ctx.same("formula:" + qual, where(r.func), r.ret(), w, msg, under)

    def byp(qual, vals, mod=V):
        f = ctx.func(mod, qual)
        if f is None:
            return {}
        return dict(zip(f.params, vals))

    nza = ne(add(add(mul(elems(a)[0], elems(a)[0]), mul(elems(a)[1], elems(a)[1])), mul(elems(a)[2], elems(a)[2])), ZERO)
    for q, vals, sq, sv, msg, under in (
        ("vec_norm", (a,), "s_norm", {"v": a}, "length of the vector", TRUE),
        ("vec_subt", (a, b), "s_sub", {"a": a, "b": b}, "first minus second vector", TRUE),
        ("vec_add", (a, b), "s_add", {"a": a, "b": b}, "sum of the vectors", TRUE),
        ("vec_scalar_mul", (a, s), "s_mul", {"a": a, "s": s}, "vector times scalar", TRUE),
        ("vec_diff_norm", (a, b), "s_diff_norm", {"a": a, "b": b}, "length of the difference", TRUE),
        ("vec_dot", (a, b), "s_dot", {"a": a, "b": b}, "scalar product", TRUE),
        ("vec_cross", (a, b), "s_cross", {"a": a, "b": b}, "vector product", TRUE),
        ("unit_vector", (a,), "s_unit", {"v": a}, "vector divided by its length", nza),
    ):
        pair(q, byp(q, vals), sq, sv, msg, under)
    r = ctx.run(V, "vec_copy", byp("vec_copy", (a,)))
    if r:
        ctx.same("formula:vec_copy", where(r.func), r.ret(), a, "copy has the components of its source")
    x, y, z = syms("x", "y", "z")
    r = ctx.run(V, "vec_set", byp("vec_set", (x, y, z)))
    if r:
        ctx.same("formula:vec_set", where(r.func), r.ret(), seq([x, y, z], "array"), "vector of the three components")
    r = ctx.run(V, "norm", byp("norm", (x, y, z)))
    if r:
        ctx.same("formula:norm", where(r.func), r.ret(), ctx.spec("s_norm", {"v": seq([x, y, z], "array")}).ret(), "length of the vector")

    # unit vector of zero is zero
    z3 = seq([ZERO] * 3, "array")
    r = ctx.run(V, "unit_vector", byp("unit_vector", (z3,)))
    if r:
        ctx.same("zero:unit_vector", where(r.func), r.ret(), z3, "unit vector of the zero vector is the zero vector")

    # prediction
    pair("search_volume_center_moving", byp("search_volume_center_moving", (a, b), "track"), "s_predict", {"a": a, "b": b},
         "position continued with constant velocity", mod="track")
    f = ctx.func("track", "predict")
    if f is not None and len(f.params) >= 2:
        out = vec("out", 2)
        args = dict(zip(f.params, (vec("a", 2), vec("b", 2))))
        r = ctx.run("track", "predict", args)
        if r is not None:
            want = [sub(mul(num(2), mk("sel", mk("sym", "b"), num(i))), mk("sel", mk("sym", "a"), num(i))) for i in range(2)]
            o = mk("sym", f.params[2]) if len(f.params) > 2 else None
            for i in range(2):
                got = r.elem(o, i) if o is not None else r.elem(r.value, i)
                ctx.same("formula:predict", where(f), got, want[i], "2D position continued with constant velocity")

    # moving along a ray
    g = syms("glob_z")
    f = ctx.func("multimed", "move_along_ray")
    if f is not None:
        r = ctx.run("multimed", "move_along_ray", dict(zip(f.params, (g, a, b))))
        if r is not None:
            w = ctx.spec("s_move", {"glob_z": g, "vertex": a, "direct": b}).ret()
            ctx.same("formula:move_along_ray", where(f), r.ret(), w, "point of the ray at the given depth", ne(elems(b)[2], ZERO))
    # midpoint of two rays
    f = ctx.func("orientation", "skew_midpoint")
    if f is not None:
        c, d = vec("c", 3), vec("d", 3)
        r = ctx.run("orientation", "skew_midpoint", dict(zip(f.params, (a, b, c, d))))
        if r is not None:
            w = ctx.spec("s_mid", {"v1": a, "d1": b, "v2": c, "d2": d}).ret()
            ctx.same("formula:skew_midpoint", where(f), r.ret(), w, "length and midpoint of the common perpendicular of the rays")
    # angle and acceleration
    f = ctx.func("track", "angle_acc")
    if f is not None:
        st, pr, cd = vec("st", 3), vec("pr", 3), vec("cd", 3)
        r = ctx.run("track", "angle_acc", dict(zip(f.params, (st, pr, cd))))
        if r is not None:
            w = ctx.spec("s_angle_acc", {"start": st, "pred": pr, "cand": cd}).ret()
            nz = lambda p: or_(*[ne(x, y) for x, y in zip(elems(p), elems(st))])
            ctx.same("formula:angle_acc", where(f), r.ret(), w,
                     "angle in gon between the predicted and the candidate displacement, length of their difference",
                     and_(nz(pr), nz(cd)))
    volume(ctx)


def volume(ctx):
    """volumedimension: every bound is compared with each corner's X and Y at both depths, for every camera"""
    f = ctx.func("multimed", "volumedimension")
    if f is None:
        return
    opq = ("correct_brown_affine",)
    for nc in (1, 2):
        sets = (("cpar.num_cams", num(nc)),) + tuple(x for c in range(nc) for x in cal_sets("cal.%d" % c, str(c)))
        r = ctx.run("multimed", "volumedimension", opaque=opq, sets=sets)
        if r is None:
            return
        w = ctx.spec("s_volume", opaque=opq, sets=sets)
        got, want = r.ret(), w.ret()
        if got.op != "seq" or len(elems(got)) != 6:
            ctx.unk("volume", where(f), "result not recognised")
            return
        for i, nm in enumerate(("xmax", "xmin", "ymax", "ymin", "z_max", "z_min")):
            g, v = elems(got)[i], elems(want)[i]
            both = smax(g, v) if nm.endswith("max") else smin(g, v)
            ctx.same("volume:" + nm, where(f), g, both,
                     "%s encloses the corner rays of %d camera(s) at both depth limits" % (nm, nc))
            # extents that start empty
            far = {mk("sym", p): num(-10 ** 9 if p.endswith("max") else 10 ** 9) for p in f.params if p[-3:] in ("max", "min")}
            ctx.same("volume:" + nm, where(f), subst(g, far), subst(both, far), "%s encloses the corner rays of %d camera(s) also when it starts empty" % (nm, nc))
