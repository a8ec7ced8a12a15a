"""C08: coordinate conversions and distortion are inverses."""
from fractions import Fraction

from ..rulekit import *

TECHNIQUE = ("symbolic value-graph comparison of the conversions with their definitions; fixed-point analysis of the correction "
             "loop's transfer function against the distortion model by polynomial identity testing")
NOTE = "That the correction iteration settles is not decided (C30); what it settles on is."


def check(ctx):
    ctx.rule("Pixel/metric conversions are compared as value graphs with the definition and composed to the identity; the "
             "transfer function of the correction loop is taken from the source, its fixed point is substituted by the undistorted "
             "point and the result compared with that point when the input is the distortion model of it.")
    x, y = syms("x", "y")
    p = mk("sym", "cpar")
    flds = ("imx", "imy", "pix_x", "pix_y")
    for q, s in (("pixel_to_metric", "s_p2m"), ("metric_to_pixel", "s_m2p")):
        f = ctx.func("trafo", q)
        if f is None or len(f.params) != 3:
            continue
        ty = {f.params[2]: "ControlPar"}
        r = ctx.run("trafo", q, (x, y, p))
        if r is not None:
            ctx.same("convert:" + q, where(f), r.ret(), ctx.spec(s, (x, y, p)).ret(), "conversion with origin in the image centre and flipped y")
    f = ctx.func("trafo", "metric_to_pixel")
    if f is not None and ctx.func("trafo", "pixel_to_metric") is not None:
        try:
            r = ctx.spec("s_pix_round", (x, y, p))
            ctx.same("round-trip", where(f), r.ret(), seq([x, y], "tuple"), "pixel to metric and back is the identity")
        except (Undecided, TooBig) as ex:
            ctx.unk("analysis", where(f), str(ex))
    # fast and array variants
    a = [mk("sel", p, string(k)) for k in flds]
    for q, s in (("fast_pixel_to_metric", "s_p2m"), ("fast_metric_to_pixel", "s_m2p")):
        f = ctx.pkg.func("trafo", q)
        if f is not None and len(f.params) == 6:
            r = ctx.run("trafo", q, (x, y, *a))
            if r is not None:
                ctx.same("convert:" + q, where(f), r.ret(), ctx.spec(s, (x, y, p)).ret(), "conversion with origin in the image centre and flipped y")
    for q, s in (("arr_pixel_to_metric", "s_p2m"), ("arr_metric_to_pixel", "s_m2p"), ("fast_arr_metric_to_pixel", "s_m2p")):
        f = ctx.pkg.func("trafo", q)
        if f is None or len(f.params) not in (2, 5):
            continue
        rows = mat("P", 3, 2)
        r = ctx.run("trafo", q, (rows, p) if len(f.params) == 2 else (rows, *a))
        if r is None:
            continue
        for i in range(3):
            pt = elems(elems(rows)[i])
            want = ctx.spec(s, (pt[0], pt[1], p)).ret()
            ctx.same("array:" + q, where(f), seq([r.elem(r.value, i, 0), r.elem(r.value, i, 1)], "list"), seq(list(elems(want)), "list"),
                     "row %d is the conversion of point %d" % (i, i))
    # principal point
    cs = cal_sets("cal", "c")
    f = ctx.func("trafo", "flat_to_dist")
    if f is not None and len(f.params) == 3 and ctx.func("trafo", "distort_brown_affine") is not None:
        r = ctx.run("trafo", "flat_to_dist", (x, y), sets=cs)
        if r is not None:
            ctx.same("flat_to_dist", where(f), r.ret(), ctx.spec("s_flat_to_dist", (x, y), sets=cs).ret(),
                     "principal point added before distorting")
    f = ctx.func("trafo", "dist_to_flat")
    g = ctx.func("trafo", "correct_brown_affine")
    if f is not None and len(f.params) == 4 and g is not None and len(g.params) == 4:
        tol = syms("tol")
        opq = ("correct_brown_affine",)
        r = ctx.run("trafo", "dist_to_flat", (x, y, mk("sym", "cal"), tol), opaque=opq, sets=cs)
        if r is not None:
            ctx.same("dist_to_flat", where(f), r.ret(), ctx.spec("s_dist_to_flat", (x, y, mk("sym", "cal"), tol), opaque=opq, sets=cs).ret(),
                     "correction followed by subtraction of the principal point", soft=opq)
    fixed_point(ctx, g)


def unwit(t):
    for _ in range(20):
        m = {w: w.args[4] for w in walk(t) if w.op == "wit" and not any(z.op == "wit" for z in walk(w.args[4]))}
        if not m:
            return t
        t = subst(t, m)
    return t


def early_branch(t):
    """condition and values of a result that does not come out of the iteration"""
    es = elems(t)[:2]
    if len(es) != 2 or any(z.op != "phi" for z in es) or es[0].args[0] is not es[1].args[0]:
        return None, None
    for k in (1, 2):
        vals = [z.args[k] for z in es]
        if not any(z.op in ("mu", "muout", "wit", "idx", "unk") for v in vals for z in walk(v)):
            c = es[0].args[0]
            return (c if k == 1 else not_(c)), vals
    return None, None


def fixed_point(ctx, g):
    d = ctx.func("trafo", "distort_brown_affine")
    if g is None or d is None or len(g.params) != 4 or len(d.params) != 3:
        return
    x, y, X, Y = syms("x", "y", "X", "Y")
    ap = vec("ap", 7)
    r = ctx.run("trafo", "correct_brown_affine", (x, y, ap, syms("tol")))
    w = ctx.run("trafo", "distort_brown_affine", (X, Y, ap))
    if r is None or w is None:
        return
    ret, dist = r.ret(), w.ret()
    if ret.op != "seq" or dist.op != "seq" or len(r.ip.loopinfo) != 1:
        return ctx.unk("inverse", where(g), "no single iteration loop")
    L = r.ip.loopinfo[0]
    end = {}
    for pc, env in L["brks"]:
        end = env
    if L["brks"] and len(L["brks"]) != 1:
        return ctx.unk("inverse", where(g), "several exits")
    end = end or L["end"]
    xy = {x: X, y: Y}
    fp = {}
    for v, m in L["mus"].items():
        if v in L["init"] and v not in L["ind"]:
            fp[m] = subst(L["init"][v], xy)
    inits = [L["init"].get(v) for v in L["mus"]]
    simple = x in inits and y in inits
    dx, dy = elems(dist)[:2]
    nz = not_(and_(eq(X, ZERO), eq(Y, ZERO)))
    ins = {x: dx, y: dy}

    def at(t):
        t = unwit(t)
        # after the loop: last value of a state variable
        t = subst(t, {z: fp[mk("mu", z.args[0], z.args[1])] for z in walk(t) if z.op == "muout" and mk("mu", z.args[0], z.args[1]) in fp})
        return subst(subst(t, fp), ins)
    used = set()
    todo = [unwit(t) for t in elems(ret)]
    seen = set()
    while todo:
        for z in walk(todo.pop()):
            if z.op == "mu" and z in fp and z not in seen:
                seen.add(z)
                used.add(z)
                v = next(v for v, m in L["mus"].items() if m is z)
                if v in end:
                    todo.append(unwit(end[v]))
    if any(not any(q in (X, Y) for q in walk(fp[z])) for z in used):
        simple = False  # a state variable whose fixed point is not known
    res = []
    names = {m: v for v, m in L["mus"].items()}
    for z in sorted(used, key=lambda z: names[z]):
        if names[z] in end:
            res.append((names[z], at(end[names[z]]), fp[z]))
    res.append(("result x", at(elems(ret)[0]), X))
    res.append(("result y", at(elems(ret)[1]), Y))
    for nm, got, want in res:
        c, det = compare(got, want, nz)
        if c == "eq":
            ctx.hold("inverse", where(g, L["node"]), "%s is unchanged at the point whose distortion is the input" % nm)
        elif c == "ne" and simple:
            ctx.bad("inverse", where(g, L["node"]), "the correction loop does not settle on (or return) the point whose distortion is the input: "
                    "%s moves away from it" % nm, det)
        else:
            ctx.unk("inverse", where(g, L["node"]), nm)
    # leaving the loop before the values have settled
    flat = {a: (ONE if k == 5 else ZERO) for k, a in enumerate(elems(ap))}
    flat.update({x: num(3), y: num(4), syms("tol"): num(Fraction(1, 100000)), L["idx"]: ONE})
    for pc, env in L["brks"]:
        early = []
        for fs in (("11/10", "4/5", "13/10", "7/10"), ("9/10", "5/4", "3/4", "7/5")):
            st = {m: (ONE if v in L["ind"] else mul(num(Fraction(fs[i % 4])), subst(subst(L["init"].get(v, ONE), xy), {X: num(3), Y: num(4)})))
                  for i, (v, m) in enumerate(sorted(L["mus"].items()))}
            early.append(subst(subst(unwit(pc), st), flat))
        if any(v is TRUE for v in early):
            ctx.bad("settled", where(g, L["node"]), "the iteration stops before its values have settled",
                    detail="a step that changes the point by a tenth ends it")
        elif all(v is FALSE for v in early):
            ctx.hold("settled", where(g, L["node"]), "a step that changes the point does not end the iteration")
    # points that are not iterated
    for f_, t_, back in ((g, ret, dist), (d, dist, None)):
        xs = (x, y) if f_ is g else (X, Y)
        c, vals = early_branch(t_)
        if c is None or not any(z in xs for z in walk(c)):
            continue
        if back is not None:
            out = [subst(z, {X: vals[0], Y: vals[1]}) for z in elems(dist)[:2]]
            k = [compare(o, z, c)[0] for o, z in zip(out, xs)]
            if "ne" in k:
                ctx.bad("inverse:skipped", where(f_), "points that are returned without correction are moved by the distortion model (%s)" % show(c, 5)[:120])
            elif k == ["eq", "eq"]:
                ctx.hold("inverse:skipped", where(f_), "points returned without correction are not moved by the distortion model")
    z0 = {x: ZERO, y: ZERO}
    for t in list(elems(ret)) + []:
        v = subst(t, z0)
        ctx.same("inverse:origin", where(g), v, ZERO, "the image centre is not moved")
    for t in elems(dist):
        ctx.same("inverse:origin", where(d), subst(t, {X: ZERO, Y: ZERO}), ZERO, "the image centre is not moved")
