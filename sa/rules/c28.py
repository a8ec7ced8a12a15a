"""C28: reconstructed positions."""
import itertools
from ..rulekit import *

TECHNIQUE = ("symbolic value-graph comparison of the positioning routines with their definition for every set of one to four cameras that "
             "see the point, with ray tracing and the midpoint of two rays kept as uninterpreted functions")
M = "orientation"


def check(ctx):
    ctx.rule("For every number of cameras from two to four and every subset of them that sees the point, the position and the convergence "
             "measure computed by the source are compared, as terms over uninterpreted ray_tracing and skew_midpoint, with the mean over all "
             "pairs of the cameras in the subset; each row of the batch routines is compared with the single-point routine on that row; the "
             "dumbbell measure is compared with its definition on two and three pairs.")
    position(ctx)
    batch(ctx)
    dumbbell(ctx)


def unused(ctx):
    ip = Interp(ctx.pkg)
    m = ctx.pkg.mods.get("constants")
    if m is None or "COORD_UNUSED" not in m.consts:
        return None
    v = ip.const_eval(m.consts["COORD_UNUSED"], m)
    return v if v.op == "num" else None


def cams(n):
    return seq([mk("sym", "cal%d" % i) for i in range(n)], "list")


def grid(tag, *dims):
    s = mk("sym", tag)

    def g(t, ds):
        if not ds:
            return t
        return seq([g(mk("sel", t, num(i)), ds[1:]) for i in range(ds[0])], "array")
    return g(s, dims)


def position(ctx):
    f = ctx.func(M, "point_position")
    un = unused(ctx)
    if f is None or len(f.params) != 4 or un is None:
        return ctx.unk("anchor", "point_position", "not found")
    opq = ("ray_tracing", "skew_midpoint")
    if ctx.func("ray_tracing", opq[0]) is None or ctx.func(M, opq[1]) is None:
        return ctx.unk("anchor", "point_position", "ray tracing or midpoint routine not found")
    mm_ = mk("sym", "mm")
    for n in range(2, 5):
        for k in range(2, n + 1):
            for vis in itertools.combinations(range(n), k):
                T_ = grid("T", n, 2)
                under = and_(*[ne(elems(elems(T_)[c])[0], un) for c in vis])
                miss = seq([un, un], "array")
                tt = seq([elems(T_)[c] if c in vis else miss for c in range(n)], "array")
                r = ctx.run(M, "point_position", (tt, num(n), mm_, cams(n)), opaque=opq, unroll=8, assume=under)
                if r is None:
                    return
                sp = ctx.spec("s_point", (tt, seq([num(c) for c in vis], "list"), mm_, cams(n)), opaque=opq, unroll=8, assume=under)
                got, want = r.ret(), sp.ret()
                try:
                    g = [r.elem(got, 0)] + [r.elem(got, 1, i) for i in range(3)]
                except (Undecided, TooBig):
                    ctx.unk("mean", where(f), "result not recognised")
                    continue
                for nm, a, b in zip(("distance", "x", "y", "z"), g, elems(want)):
                    ctx.same("mean", where(f), a, b, "%s is the mean over all pairs of the cameras %s of %d" % (nm, list(vis), n), under, soft=opq)


def batch(ctx):
    n, c = 3, 2
    T_ = grid("B", n, c, 2)
    mm_, vp = mk("sym", "mm"), mk("sym", "vpar")
    for q, sp, opq, nc in (("multi_cam_point_positions", "s_pp", ("point_position",), 2), ("single_cam_point_positions", "s_single", ("epi_mm_2D",), 1)):
        f = ctx.func(M, q)
        if f is None or any(ctx.func(M if o[0] == "p" else "epi", o) is None for o in opq):
            ctx.unk("anchor", q, "not found")
            continue
        T_ = grid("B", n, nc, 2)
        for entry in (q, "point_positions"):
            g = ctx.func(M, entry)
            if g is None:
                continue
            a = {"targets": T_, "mm_par": mm_, "cals": cams(nc), "vparam": vp}
            if not set(g.params) <= set(a):
                ctx.unk("batch", where(g), "parameters renamed")
                continue
            r = ctx.run(M, entry, {k: v for k, v in a.items() if k in g.params}, opaque=opq, unroll=8, key=("b", nc))
            if r is None:
                continue
            got = r.ret()
            for i in range(n):
                row = elems(T_)[i]
                if q[0] == "m":
                    want = elems(ctx.spec(sp, (row, num(nc), mm_, cams(nc)), opaque=opq).ret())
                else:
                    want = list(elems(ctx.spec(sp, (row, mm_, cams(nc), vp), opaque=opq).ret())) + [ZERO]
                for j in range(4):
                    x = r.elem(got, 0, i, j) if j < 3 else r.elem(got, 1, i)
                    ctx.same("batch", where(g), x, want[j], "%s: %s of point %d comes from the coordinates of point %d" % (
                        entry, ("x", "y", "z", "distance")[j], i, i), soft=opq)


def dumbbell(ctx):
    opq = ("point_position",)
    mm_, ln, wt = mk("sym", "mm"), mk("sym", "len"), mk("sym", "wt")
    if ctx.func(M, opq[0]) is None:
        return
    for q in ("weighted_dumbbell_precision", "dumbbell_target_func"):
        f = ctx.func(M, q)
        if f is None or len(f.params) != 5:
            ctx.unk("anchor", q, "not found")
            continue
        for n in (2, 4, 6):
            T_ = grid("D", n, 3, 2)
            cp = mk("sym", "cparam")
            r = ctx.run(M, q, (T_, mm_ if q[0] == "w" else cp, cams(3), ln, wt), opaque=opq, unroll=8, key=("d", n))
            if r is None:
                continue
            m2 = mm_ if q[0] == "w" else mk("sel", cp, string("mm"))
            want = ctx.spec("s_dumbbell", (T_, num(3), m2, cams(3), ln, wt), opaque=opq, unroll=8).ret()
            got = subst(r.ret(), {mk("uninit"): mk("sym", "uninitialised")})
            ctx.same("dumbbell", where(f), got, want, "%s: mean distance and relative length error of %d points" % (q, n), gt(ln, ZERO), soft=opq)
