"""C03: rotation matrix."""

TECHNIQUE = "symbolic value-graph comparison of the rotation entries plus interprocedural typestate (stale/fresh) of the rotation matrix"
from ..rulekit import *

ANG = ("omega", "phi", "kappa")
PUBLIC = (
    ("calibration", "Calibration.from_file"), ("calibration", "Calibration.increment_attribute"),
    ("calibration", "Calibration.set_angles"), ("calibration", "Calibration.update_rotation_matrix"),
    ("calibration", "Calibration.set_pos"), ("calibration", "Calibration.copy"),
    ("calibration", "Calibration.set_primary_point"), ("calibration", "Calibration.write"),
    ("calibration", "read_ori"), ("calibration", "read_calibration"), ("calibration", "write_ori"),
    ("calibration", "write_calibration"), ("calibration", "rotation_matrix"),
    ("orientation", "num_deriv_exterior"), ("orientation", "orient"), ("orientation", "raw_orient"),
    ("orientation", "external_calibration"), ("orientation", "full_calibration"),
    ("orientation", "match_detection_to_ref"), ("orientation", "point_positions"),
    ("orientation", "dumbbell_target_func"), ("orientation", "weighted_dumbbell_precision"),
    ("tracking_run", "tr_new"), ("tracking_frame_buf", "read_calibrations"),
    ("sortgrid", "sortgrid"), ("multimed", "init_mmlut"), ("imgcoord", "img_coord"), ("imgcoord", "flat_image_coord"),
    ("epi", "epi_mm"), ("epi", "epi_mm_2D"),
)
OPQ = ("img_coord", "multimed_r_nlay", "fast_multimed_r_nlay", "correct_brown_affine", "ray_tracing", "is_singular",
       "metric_to_pixel", "pixel_to_metric")


def check(ctx):
    ctx.rule("The nine entries stored by the rotation update are compared with Rx(omega)*Ry(phi)*Rz(kappa); a typestate "
             "analysis marks a calibration stale at every store to one of its angles and fresh when its matrix is recomputed "
             "from the current angles, and requires it to be fresh wherever a public routine returns and not to be stale in any "
             "round of the loops around where a point is projected.")
    # formula
    f = ctx.func("calibration", "rotation_matrix")
    e = mk("sym", "ext")
    om, ph, ka = (mk("sel", e, string(a)) for a in ANG)
    want = ctx.spec("s_rotation", {"omega": om, "phi": ph, "kappa": ka}).ret()
    if f is not None and len(f.params) == 1:
        r = ctx.run("calibration", "rotation_matrix", (e,))
        if r is not None:
            dm_same(ctx, "formula:rotation_matrix", f, r, e, want)
    f = ctx.func("calibration", "Calibration.update_rotation_matrix")
    if f is not None:
        r = ctx.run("calibration", "Calibration.update_rotation_matrix")
        if r is not None:
            x = r.ip.getattr(r.st, mk("sym", "self"), "ext_par", None)
            w = ctx.spec("s_rotation", dict(zip(ANG, [r.field(x, a) for a in ANG]))).ret()
            dm_same(ctx, "formula:update_rotation_matrix", f, r, x, w)
    f = ctx.func("calibration", "Calibration.set_angles")
    if f is not None and len(f.params) == 2:
        a = vec("opk", 3)
        r = ctx.run("calibration", "Calibration.set_angles", {f.params[1]: a})
        if r is not None:
            x = r.ip.getattr(r.st, mk("sym", "self"), "ext_par", None)
            w = ctx.spec("s_rotation", dict(zip(ANG, elems(a)))).ret()
            dm_same(ctx, "set_angles:matrix", f, r, x, w)
            for n, v in zip(ANG, elems(a)):
                ctx.same("set_angles:" + n, where(f), r.field(x, n), v, "%s is set to its own value" % n)
    f = ctx.func("calibration", "Calibration.get_angles")
    if f is not None:
        r = ctx.run("calibration", "Calibration.get_angles")
        if r is not None:
            x = r.ip.getattr(r.st, mk("sym", "self"), "ext_par", None)
            ctx.same("get_angles", where(f), r.ret(), seq([r.field(x, a) for a in ANG], "array"), "angles in their order")
    # the angle an increment is added to, and freshness after each name
    f = ctx.func("calibration", "Calibration.increment_attribute")
    if f is not None and len(f.params) == 3:
        for n in ANG:
            s = syms("step")
            r = ctx.run("calibration", "Calibration.increment_attribute", {f.params[1]: string(n), f.params[2]: s})
            if r is None:
                continue
            x = r.ip.getattr(r.st, mk("sym", "self"), "ext_par", None)
            x0 = mk("sel", mk("sym", "self"), string("ext_par"))
            new = [add(mk("sel", x0, string(a)), s if a == n else ZERO) for a in ANG]
            w = ctx.spec("s_rotation", dict(zip(ANG, new))).ret()
            has = [t for t in walk(r.field(x, n)) if t.op in ("truth", "fn", "call") and "hasattr" in show(t)]
            und = and_(*[t for t in conds_hasattr(r, x0, n)])
            dm_same(ctx, "increment:" + n, f, r, x, w, und)
    # typestate
    for m, q in PUBLIC:
        f = ctx.func(m, q)
        if f is None:
            continue
        r = ctx.run(m, q, opaque=OPQ, stale=(ANG, "dm"), unroll=8)
        if r is None:
            continue
        for e in r.ev("call"):
            for p, v in (e.d.get("stale") or {}).items():
                k = "use:%s:%s" % (q, e.name)
                if stale_use(r, e, v):
                    ctx.bad(k, e.where, "%s uses the rotation matrix of %s in %s, but its angles have been changed since the matrix was "
                            "computed" % (q, path(e.args[p]), e.name))
                else:
                    ctx.hold(k, e.where, "the matrix is up to date, or not shown to be out of date, where it is used")
        flags = [(b, v[1]) for (b, k), v in r.st.heap.f.items() if k == "#stale" and visible(r, b)]
        for o, inf in r.ip.objs.items():
            if (o, "#stale") not in r.st.heap.f and inf.content is not None and visible(r, o):
                v = r.ip._carried(r.st, inf.content)
                if v is not FALSE:
                    flags.append((o, v))
        if not flags:
            ctx.hold("fresh:" + q, where(f), "does not change angles")
        for b, v in flags:
            if v is FALSE:
                ctx.hold("fresh:" + q, where(f), "matrix of %s is up to date on return" % path(b))
            elif v is TRUE or not any(x.op in ("mu", "unk") for x in walk(v)):
                if v is not TRUE and feas(v) is False:
                    ctx.hold("fresh:" + q, where(f), "matrix of %s is up to date on return" % path(b))
                    continue
                st_ = [e for e in r.ev("store") if e.key.op == "str" and e.key.args[0] in ANG]
                wh = st_[-1].where if st_ else where(f)
                ctx.bad("fresh:" + q, where(f), "%s returns with an angle of %s changed (store at %s) and the rotation matrix not "
                        "recomputed afterwards" % (q, path(b), wh))
            else:
                ctx.unk("fresh:" + q, where(f), "state after loop not decided: %s" % show(v)[:100])


def stale_use(r, e, v):
    """is the flag true in some round of the loops around: a value that is carried into a round is the one from before the loop or the
    one at the end of a round; a value that depends on a condition is not followed"""
    seen, todo = set(), [v]
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if v is TRUE:
            return True
        if v.op == "mu":
            todo += r.ip.staleloop.get(v, ())
    return False


def visible(r, b):
    """does the caller see this object after the return"""
    seen, todo = set(), [r.value]
    todo += [v for (o, k), (n, v) in r.st.heap.f.items() if root(o).op == "sym"]
    todo += [x[1] for o, ent in r.st.heap.i.items() if root(o).op == "sym" for x in ent if x[1] is not None]
    if any(k == "int_par" and b in list(walk(v)) for (o, k), (n, v) in r.st.heap.f.items()):
        return False
    o = r.ip.objs.get(b)
    if o is not None and o.content is not None and any(x.op == "sel" and x.args[1].op == "str" and x.args[1].args[0] == "int_par"
                                                       for x in [strip(o.content)]):
        return False
    if root(b).op == "sym":
        return True
    while todo:
        t = todo.pop()
        for x in walk(t):
            if x.op == "obj" and x not in seen:
                seen.add(x)
                todo += [v for (o, k), (n, v) in r.st.heap.f.items() if o is x]
                todo += [e[1] for e in r.st.heap.i.get(x, ()) if e[1] is not None]
                o = r.ip.objs.get(x)
                if o is not None and o.content is not None:
                    todo.append(o.content)
    return root(b) in seen


def strip(t):
    while t.op in ("snap", "cp"):
        t = t.args[0]
    return t


def feas(v):
    """can the flag term be true"""
    c = truth(v)
    if unsat(c):
        return False
    return True


def conds_hasattr(r, x0, n):
    out = []
    for t in walk(r.field(x0, n)):
        if t.op == "truth" or t.op == "fn" and t.args[0] == "hasattr":
            if "hasattr" in show(t):
                out.append(t if isbool(t) else truth(t))
    return out[:1]


def dm_same(ctx, key, f, r, x, want, under=TRUE):
    dm = r.ip.getattr(r.st, x, "dm", None)
    for i in range(3):
        for j in range(3):
            got = r.ip.snap(r.st, r.ip.getitem(r.st, r.ip.getitem(r.st, dm, num(i), None), num(j), None))
            ctx.same(key, where(f), got, elems(elems(want)[i])[j],
                     "entry (%d,%d) of the rotation matrix is that of Rx*Ry*Rz of the angles" % (i, j), under)
