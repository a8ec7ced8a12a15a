"""C24: refraction through the layers and the lookup table."""
from ..rulekit import *
from .c25 import part

TECHNIQUE = ("symbolic value-graph comparison: fixed point of the refraction loop's transfer function against Snell's law per layer, "
             "bilinear weights of the table read on an explicit symbolic grid, and the grid/index relation of every table store")


def check(ctx):
    ctx.rule("The transfer function of the refraction iteration is taken from the source for one to three layers, its fixed point is "
             "compared with Snell's law in every layer; the table read is compared on an explicit symbolic table with bilinear "
             "interpolation inside and zero outside the grid; every store into the table is compared with the node of the stored grid.")
    for n in (1, 2, 3):
        layers(ctx, n)
    lut_read(ctx)
    choice(ctx)
    lut_fill(ctx)
    nlay_xy(ctx)
    crossing(ctx)


def crossing(ctx):
    """a traced ray meets the layer of the medium given, and turns at both of its faces by their own indices"""
    f = ctx.func("ray_tracing", "ray_tracing")
    if f is None or len(f.params) != 4:
        return
    cs = cal_sets("cal", "c")
    x, y = syms("x", "y")
    r = ctx.run("ray_tracing", "ray_tracing", (x, y), sets=cs)
    if r is None:
        return
    w = ctx.spec("s_trace", {"x": x, "y": y}, sets=cs).ret()
    got = r.ret()
    for i, nm in enumerate(("the ray leaves the layer after its thickness", "the ray turns by the indices of the media on both sides of each face")):
        ctx.same("crossing:%d" % i, where(f), part(got, i), part(w, i), nm)


def layers(ctx, n):
    f = ctx.func("multimed", "fast_multimed_r_nlay")
    if f is None or len(f.params) != 9:
        return
    RB, Z, n1, n3, z0, Q = (mk("sym", k) for k in ("gRB", "gZ", "n1", "n3", "gz0", "gQ"))
    n2, d = vec("n2", n), vec("gd", n)
    r = ctx.run("multimed", "fast_multimed_r_nlay", (num(n), n1, n2, n3, d, ZERO, ZERO, z0, seq([RB, ZERO, Z], "array")))
    if r is None:
        return
    cand = [L for L in r.ip.loopinfo if any(v == RB or (v.op == "max" and RB in v.args) for v in L["init"].values())]
    if len(cand) != 1 or cand[0]["brks"]:
        return ctx.unk("layers", where(f), "no single iteration loop that starts at the radius")
    L = cand[0]
    state = [v for v in L["mus"] if v in L["init"] and (L["init"][v] == RB or L["init"][v].op == "max" and RB in L["init"][v].args)]
    state = [v for v in state if v in L["end"] and L["end"][v] is not L["mus"][v]]
    if len(state) != 1:
        return ctx.unk("layers", where(f, L["node"]), "state of the iteration not recognised")
    v = state[0]
    rb = ctx.spec("s_layers", (Q, n1, n2, n3, d, z0, Z, num(n))).ret()
    under = and_(gt(RB, ZERO), gt(Q, ZERO))
    mu = L["mus"][v]
    out = {z: Q for t in (L["end"][v], r.ret()) for z in walk(t) if z.op == "muout" and z.args[0] == mu.args[0] and z.args[1] == mu.args[1]}

    def at(t):
        return subst(subst(t, {mu: Q, **out}), {RB: rb})
    step = L["end"][v]
    ctx.same("layers:%d" % n, where(f, L["node"]), at(step), Q,
             "the iteration settles on the ray obeying Snell's law in all %d layer(s)" % n, subst(under, {RB: rb}))
    ctx.same("layers:%d:result" % n, where(f), at(r.ret()), mul(Q, inv_(rb)), "the factor is the settled radius over the given one",
             subst(under, {RB: rb}))
    ctx.same("layers:axis", where(f), subst(r.ret(), {RB: ZERO}), ONE, "a point on the axis is not moved")


def inv_(t):
    return div(ONE, t)


def lut_read(ctx):
    f = ctx.func("multimed", "get_mmf_from_mmlut")
    if f is None or len(f.params) != 2:
        return
    nr, nz = 3, 4
    R, S, rw = (mk("sym", k) for k in ("gR", "gS", "grw"))
    o = vec("org", 3)
    oe = elems(o)
    pos = seq([add(oe[0], mul(num(F(3, 5)), mul(rw, R))), add(oe[1], mul(num(F(4, 5)), mul(rw, R))), add(oe[2], mul(rw, S))], "array")
    data = mat("lut", nr, nz)
    lut = mk("sym", "lut:c")
    sets = (("cal.mmlut.nr", num(nr)), ("cal.mmlut.nz", num(nz)), ("cal.mmlut.rw", rw), ("cal.mmlut.origin", o), ("cal.mmlut_data", data))
    r = ctx.run("multimed", "get_mmf_from_mmlut", (mk("sym", "cal"), pos), sets=tuple((f.params[0] + a[3:], b) for a, b in sets))
    if r is None:
        return
    got = r.ret()
    base = and_(gt(rw, ZERO), ge(R, ZERO))
    out = {"beyond the last radius": gt(R, num(nr - 1)), "below the grid": lt(S, ZERO), "above the grid": gt(S, num(nz - 1))}
    for nm, c in out.items():
        ctx.same("table:outside", where(f), got, ZERO, "no value is taken from the table %s" % nm, and_(base, c))
    want = ctx.spec("s_lut", (data, R, S)).ret()
    ins = and_(base, lt(R, num(nr - 1)), ge(S, ZERO), lt(S, num(nz - 1)))
    ctx.same("table:inside", where(f), phi(eq(got, ZERO), want, got), want, "bilinear weights of the four nodes around the point", ins)


def choice(ctx):
    f = ctx.func("multimed", "multimed_r_nlay")
    if f is None or len(f.params) != 3:
        return
    opq = ("get_mmf_from_mmlut", "fast_multimed_r_nlay")
    if any(ctx.func("multimed", q) is None for q in opq):
        return
    pos = vec("pos", 3)
    a = (mk("sym", "cal"), mk("sym", "mm"), pos)
    ty = {f.params[0]: "Calibration", f.params[1]: "MultimediaPar"}
    r = ctx.run("multimed", "multimed_r_nlay", a, opaque=opq)
    if r is None:
        return
    got = r.ret()
    tab, direct = (ctx.spec(q, a, opaque=opq).ret() for q in ("s_mmf_choice", "s_mmf_direct"))
    mm_ = mk("sym", "mm")
    air = and_(*(eq(mk("sel", mm_, string(k)), ONE) for k in ("n1", "nlay", "n3")), eq(mk("sel", mk("sel", mm_, string("n2")), ZERO), ONE))
    media = {k: mk("sel", mm_, string(k)) for k in ("n1", "nlay", "n3")}
    media["n2"] = mk("sel", mk("sel", mm_, string("n2")), ZERO)
    names = {x.args[0] for x in walk(got) if x.op == "call"}
    if not set(opq) <= names:
        ctx.unk("choice", where(f), "computed without the routines kept opaque")
    else:
        ctx.same("choice:air", where(f), got, ONE, "nothing is bent when all media are air", air)
        for k, v in media.items():
            ctx.same("choice" if k == "n1" else "choice:" + k, where(f), phi(and_(eq(got, tab), gt(tab, ZERO)), direct, got), direct,
                     "the factor is the table's value where it is positive and the direct computation with the camera and all layers otherwise, where only %s is not that of air" % k,
                     ne(v, ONE) if k == "n1" else and_(ne(v, ONE), *(eq(x, ONE) for q, x in media.items() if q != k)))


def nlay_xy(ctx):
    f = ctx.pkg.func("multimed", "multimed_nlay")
    if f is None or len(f.params) != 3 or ctx.func("multimed", "multimed_r_nlay") is None:
        return
    pos = vec("pos", 3)
    a = (mk("sym", "cal"), mk("sym", "mm"), pos)
    opq = ("multimed_r_nlay",)
    r = ctx.run("multimed", "multimed_nlay", a, opaque=opq)
    if r is not None:
        ctx.same("shift", where(f), r.ret(), ctx.spec("s_multimed_nlay", a, opaque=opq).ret(), "radial shift about the camera", soft=opq)


def lut_fill(ctx):
    f = ctx.func("multimed", "init_mmlut")
    if f is None or len(f.params) != 3:
        return
    opq = ("ray_tracing", "dist_to_flat", "trans_cam_point", "fast_multimed_r_nlay")
    r = ctx.run("multimed", "init_mmlut", opaque=opq)
    if r is None:
        return
    cal, cpar = mk("sym", f.params[2]), mk("sym", f.params[1])
    w = where(f)
    nr, nz, rw = (r.field(cal, "mmlut", k) for k in ("nr", "nz", "rw"))
    org = [r.elem(r.ip.getattr(r.st, r.ip.getattr(r.st, cal, "mmlut", None), "origin", None), i) for i in range(3)]
    data = None
    for e in r.ev("store"):
        if e.base == cal and e.key == string("mmlut_data"):
            data = e.val
            de = e
    if data is None:
        return ctx.bad("fill", w, "the table of the calibration is never assigned although its grid is changed")
    if de.guard is not TRUE and de.guard != TRUE:
        ctx.same("fill:always", de.where, bool_num(de.guard), ONE, "the table is replaced whenever the grid is stored")
    else:
        ctx.hold("fill:always", de.where, "the table is replaced whenever the grid is stored")
    if data.op != "obj":
        return ctx.unk("fill", w, "the table is not an array made here")
    stores = [e for e in r.ev("store") if root(e.base) == data]
    if not stores:
        return ctx.unk("fill:node", w, "no store into the table found")
    depth = ctx.spec("s_camera_depth", {"cal": cal}).ret()
    ab = {}
    for t, n_ in ((nr, "nr0"), (nz, "nz0"), (org[2], "oz0")):
        if t.op not in ("poly", "num", "sym"):
            ab[t] = isym(n_) if n_ != "oz0" else mk("sym", n_)
    nr, nz, org = (subst(nr, ab), subst(nz, ab), [subst(t, ab) for t in org])
    shp = r.ip.getattr(r.st, data, "shape", None)
    if shp.op == "seq":
        ctx.same("fill:shape", w, seq([subst(t, ab) for t in elems(shp)], "list"), seq([nr, nz], "list"),
                 "one row per radius and one column per depth of the stored grid")
    for e in stores:
        calls = [x for x in walk(e.val) if x.op == "call" and x.args[0] == "fast_multimed_r_nlay"]
        if len(calls) != 1:
            ctx.unk("fill:node", e.where, "value of the node not recognised")
            continue
        c = calls[0]
        args = [subst(t, ab) for t in (list(c.args[1:]) if not isinstance(c.args[1], tuple) else list(c.args[1]))]
        guard, key = subst(e.guard, ab), subst(e.key, ab)
        if len(args) != 9:
            ctx.unk("fill:node", e.where)
            continue
        mm_ = mk("sel", cpar, string("mm"))
        for nm, i, want in (("number of layers", 0, "nlay"), ("first index", 1, "n1"), ("layer indices", 2, "n2"), ("last index", 3, "n3"), ("thicknesses", 4, "d")):
            g = args[i]
            ctx.same("fill:media", e.where, unsnap(g), mk("sel", mm_, string(want)), "the table is made for the %s of the medium given" % nm)
        p = args[8]
        pe = elems(p) if p.op == "seq" and len(elems(p)) == 3 else None
        if pe is None:
            ctx.unk("fill:node", e.where)
            continue
        # lateral distance and depth at which the factor is computed, in the frame of the camera
        i_ = div(sub(pe[0], args[5]), rw)
        j_ = div(sub(pe[2], org[2]), rw)
        ctx.same("fill:origin", e.where, seq([args[5], args[6]], "list"), seq(org[:2], "list"), "the camera axis is the origin of the table")
        ctx.same("fill:node", e.where, sub(pe[1], args[6]), ZERO, "nodes lie along the radius")
        k = key
        if k.op == "flatkey":
            ctx.same("fill:node", e.where, k.args[0], add(mul(i_, nz), j_), "the factor of grid node (i, j) is stored at i*nz+j")
        elif k.op == "seq" and len(elems(k)) == 2:
            ctx.same("fill:node", e.where, k, seq([i_, j_], k.args[0]), "the factor of grid node (i, j) is stored at (i, j)")
        elif e.base.op == "row" or e.base.op == "sel":
            ctx.same("fill:node", e.where, seq([e.base.args[1], k], "list"), seq([i_, j_], "list"), "the factor of grid node (i, j) is stored at (i, j)")
        else:
            ctx.unk("fill:node", e.where)
            continue
        full = and_(ge(i_, ZERO), lt(i_, nr), ge(j_, ZERO), lt(j_, nz))
        full = and_(ge(i_, ZERO), le(i_, sub(nr, ONE)), ge(j_, ZERO), le(j_, sub(nz, ONE)))
        if full == guard or implies(full, guard, 8):
            ctx.hold("fill:all", e.where, "every node of the grid is filled")
        else:
            ctx.same("fill:all", e.where, bool_num(guard), ONE, "every node of the grid is filled", full)
        z = args[7]
        tc = [x for x in walk(z) if x.op == "sel" and x.args[0].op == "call" and x.args[0].args[0] == "trans_cam_point" and x.args[1] == num(3)]
        z = subst(z, {x: depth for x in tc if trans_ok(x.args[0], cal, mm_)})
        ctx.same("fill:camera", e.where, z, depth, "the camera's distance from the glass, in the frame of the table", soft=())


def trans_ok(c, cal, mm_):
    a = list(c.args[1]) if isinstance(c.args[1], tuple) else list(c.args[1:])
    return len(a) >= 3 and unsnap(a[0]) == mk("sel", cal, string("ext_par")) and unsnap(a[1]) == mm_ and unsnap(a[2]) == mk("sel", cal, string("glass_par"))


def unsnap(t):
    while t.op in ("snap", "cp"):
        t = t.args[0]
    return t


def bool_num(c):
    return phi(c, ONE, ZERO)
