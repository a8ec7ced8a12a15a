"""C22: a full calibration changes only the parameters it was asked to adjust."""
from ..rulekit import *
from ..deriv import *
from .c23 import Orient, run_orient, flag, on, beta, field0, leaves, glass

TECHNIQUE = ("abstract interpretation of the adjustment: change of every calibration field per iteration as a function of flags and solution vector, compared case by case with the table of "
             "parameters; columns, identity rows and weights located through the value graph and compared with reference formulas; points selected by guard entailment")
NOTE = "That the least squares routine solves the equations it is given is not decided."

PARAMS = [("int_par.cc", "ccflag"), ("int_par.xh", "xhflag"), ("int_par.yh", "yhflag"), ("added_par.0", "k1flag"), ("added_par.1", "k2flag"), ("added_par.2", "k3flag"),
          ("added_par.3", "p1flag"), ("added_par.4", "p2flag"), ("added_par.5", "scxflag"), ("added_par.6", "sheflag")]


def check(ctx):
    ctx.rule("Per iteration of orient, each field of the calibration changes by the correction of its own column (exterior: always; interior, distortion, affine: if its own flag is set, else "
             "by nothing; glass vector: only with the interface flag); columns 7-15 hold the derivatives of the observation over their parameters, identity row k has its one in column 6+k, "
             "the observation of parameter k and a weight governed by the flag of parameter k; observations are detection minus projection of the same point, stored only for points selected by "
             "is_used_for_orientation, which is the conjunction of the match and the choice by useflag; full_calibration returns the residuals of exactly these points in their order.")
    used(ctx)
    f = ctx.func("orientation", "orient")
    if f is not None:
        r = run_orient(ctx)
        if r is not None:
            O = Orient(ctx, r)
            if O.why:
                ctx.unk("columns", where(f), O.why)
            else:
                updates(ctx, f, O)
                observations(ctx, f, O)
                columns(ctx, f, O)
                glass(ctx, f, O)
                rows(ctx, f, O)
                solution(ctx, f, O)
    full(ctx)
    converted(ctx)


def used(ctx):
    f = ctx.func("orientation", "is_used_for_orientation")
    if f is None or len(f.params) != 3:
        return ctx.unk("anchor", "is_used_for_orientation", "not found")
    i = isym("i")
    args = (i, mk("sym", f.params[1]), mk("sym", f.params[2]))
    r = ctx.run("orientation", "is_used_for_orientation", args)
    if r is None:
        return
    want = ctx.spec("s_used_for_orientation", args).ret()
    got = r.ret()
    u = mk("sel", args[2], string("useflag"))
    for v in (0, 1, 2, 3, 4):
        c = tm.eq(u, num(v))
        a, b = (tm.subst(tm.deep_assume(tm.truth(t), c), {u: num(v)}) for t in (got, want))
        ctx.same("used:%d" % v, where(f), a, b, "points used with useflag %d" % v, under=c)


def updates(ctx, f, O):
    st = O.steps()
    if not st:
        return ctx.unk("update", where(f), "corrections not found")
    if not any(x.op == "sym" and x.args[0].startswith("beta") for s, e in st.values() for x in walk(s)):
        return ctx.unk("update", where(f), "the solution of the equations was not recognised")
    zero = num(0)
    for k, v in enumerate(VARS):
        p = "ext_par." + v
        if p not in st:
            ctx.bad("update:" + p, where(f), "%s is never corrected" % p)
            continue
        s, e = st[p]
        ctx.same("update:" + p, e.where, s, beta(k), "%s is changed by correction %d" % (p, k))
    for k, (p, fl) in enumerate(PARAMS):
        if p not in st:
            ctx.bad("update:" + p, where(f), "%s is never corrected" % p)
            continue
        s, e = st[p]
        ctx.same("update:" + p, e.where, on(s, flag(f, fl)), beta(6 + k), "with %s, %s is changed by correction %d" % (fl, p, 6 + k))
        ctx.same("kept:" + p, e.where, on(s, flag(f, fl), False), zero, "without %s, %s is left as it is" % (fl, p))
    for i in range(3):
        p = "glass_par.%d" % i
        if p not in st:
            continue
        s, e = st[p]
        ctx.same("kept:" + p, e.where, on(s, flag(f, "interfflag"), False), zero, "without interfflag, %s is left as it is" % p)
        w = on(s, flag(f, "interfflag"))
        both = tm.subst(w, {beta(16): zero, beta(17): zero})
        ctx.same("update:" + p, e.where, both, zero, "with interfflag, %s is changed by the corrections of its two columns only" % p)
    for p in st:
        if p not in {"ext_par." + v for v in VARS} | {q for q, _ in PARAMS} and not p.startswith("glass_par") and p not in DM:
            s, e = st[p]
            ctx.same("kept:" + p, e.where, s, zero, "%s is no parameter of the adjustment" % p)


def observations(ctx, f, O):
    for comp in (0, 1):
        e = O.obs[comp]
        xy = "xy"[comp]
        v = plain(e.d["val"])
        idx = O.loop.idx
        det = next((x.args[0] for x in walk(v) if x.op == "sel" and is_call(x.args[0], "pixel_to_metric")), None)
        lin = combination(v, affine=True)
        if lin is None or len(lin) != 1:
            ctx.unk("obs:" + xy, e.where, "difference of a detection and a projection not recognised")
            continue
        call, k, c = lin[0]
        want = tm.sub(mk("sel", det, num(comp)), mk("sel", call, num(comp)))
        ctx.same("obs:" + xy, e.where, v, want, "observation is detection minus projection, %s from %s" % (xy, xy))
        pts = [a.args[1] for a in det.args[1:] for a in walk(a) if a.op == "sel" and a.args[1].op != "str" and root(a).op == "sym"]
        pts += [a.args[1] for a in others(call) for a in walk(a) if a.op == "sel" and a.args[1].op != "str" and root(a).op == "sym" and path(a.args[0]) == "fix"]
        if pts:
            if all(p is pts[0] for p in pts):
                ctx.hold("obs:%s:point" % xy, e.where, "detection and projection of the same point")
            else:
                rs = [compare(p, pts[0])[0] for p in pts[1:]]
                (ctx.bad if "ne" in rs else ctx.unk if "unk" in rs else ctx.hold)("obs:%s:point" % xy, e.where, "detection and projection of the same point")
        names = [a.args[1].args[0] for a in det.args[1:] if a.op == "sel" and a.args[1].op == "str"]
        if names[:2] and len(names) >= 2:
            (ctx.hold if names[:2] == ["x", "y"] else ctx.bad)("obs:%s:detection" % xy, e.where, "x and y of the detection in their places")
        # selection
        calls = [c for c in conjuncts(e.guard) for x in walk(c) if is_call(x, "is_used_for_orientation")]
        if calls:
            x = next(x for c in calls for x in walk(c) if is_call(x, "is_used_for_orientation"))
            g = and_(*calls)
            try:
                off = tm.subst(g, {tm.truth(x): mk("bool", False)})
                onn = tm.subst(g, {tm.truth(x): mk("bool", True)})
            except Exception:
                off = onn = None
            if off is FALSE and onn is TRUE:
                ctx.hold("select:" + xy, e.where, "observation only for the points used")
            elif onn is FALSE and off is TRUE:
                ctx.bad("select:" + xy, e.where, "observation for the points left out")
            else:
                ctx.unk("select:" + xy, e.where, "selection of the points")
            if pts:
                a = x.args[1]
                (ctx.hold if a is pts[0] or compare(a, pts[0])[0] == "eq" else ctx.bad if compare(a, pts[0])[0] == "ne" else ctx.unk)(
                    "select:%s:point" % xy, e.where, "the point whose use is tested is the one observed")
        elif pts:
            p = next((q for q, a in zip(f.params, f.node.args.args) if q == "pix"), None)
            if p is None:
                continue
            want = tm.truth(ctx.spec("s_used_for_orientation", (pts[0], mk("sym", p), mk("sym", root(flag(f, "useflag")).args[0]))).ret())
            t = implied(e.guard, want)
            (ctx.hold if t else ctx.bad if t is False else ctx.unk)("select:" + xy, e.where, "observation only for the points used")
        lo, hi = O.loop.lo, O.loop.hi
        n = next((q for q in f.params if q == "nfix"), None)
        if n is not None and isinstance(hi, T) and isinstance(lo, T) and {x for x in walk(hi) if x.op not in ("num", "poly", "paren")} == {mk("sym", n)}:
            ctx.same("points:" + xy, e.where, seq([lo, hi], "tuple"), seq([num(0), mk("sym", n)], "tuple"), "all points are considered")
    ctx.same("obs:rows", O.obs[1].where, plain(tm.sub(O.obs[1].key, O.obs[0].key)), num(1), "x and y of a point in consecutive rows")


def columns(ctx, f, O):
    st = O.base_state()
    lin = combination(plain(O.obs[0].d["val"]), affine=True)
    if st is None or lin is None:
        return ctx.unk("columns", where(f), "projection not found")
    call = lin[0][0]
    x, y = mk("sel", call, num(0)), mk("sel", call, num(1))
    a = [plain(elems(st)[AT["added_par.%d" % i]]) for i in range(7)]
    xs, ys = syms("colx", "coly")
    sp = ctx.spec("s_adjustment_columns", (xs, ys, seq(a, "tuple")))
    for k in range(7, 16):
        for comp in (0, 1):
            e = O.column(comp, k)
            if e is None:
                continue
            v = tm.subst(plain(e.d["val"]), {x: xs, y: ys})
            want = sp.elem(sp.value, k - 7, comp)
            ctx.same("column:%d:%s" % (k, "xy"[comp]), e.where, v, want, "derivative of %s over %s" % ("xy"[comp], PARAMS[k - 6][0]))
    # exterior: values of num_deriv_exterior of the same component
    g = ctx.pkg.func("orientation", "num_deriv_exterior")
    for (comp, k), es in O.cols.items():
        if isinstance(k, T) and k.op == "slice":
            for e in es:
                v = e.d["val"]
                lo, hi = k.args[0], k.args[1]
                if (lo.op == "none" or lo is num(0)) and hi is num(6) and v.op == "sel" and is_call(v.args[0], "num_deriv_exterior") and v.args[1].op == "num":
                    (ctx.hold if int(val(v.args[1])) == comp else ctx.bad)("column:ext:%s" % "xy"[comp], e.where, "derivatives of %s over the exterior parameters in the row of %s" % ("xy"[comp], "xy"[comp]))
                else:
                    ctx.unk("column:ext:%s" % "xy"[comp], e.where, "exterior columns")


def rows(ctx, f, O):
    """identity rows: observation, column and weight of parameter k"""
    par = calpar(f)
    st = O.base_state()
    yobj = O.obs[0].base
    found = {}
    outer = [e for e in O.r.ev("store") if e.loops and len(e.loops) < len(O.obs[0].loops) and e.loops[-1].idx is not O.loop.idx and isinstance(e.d["val"], T) and isinstance(e.key, T)]
    cand = [e for e in outer if e.base is yobj]
    if len(cand) != len(PARAMS):
        return ctx.unk("rows", where(f), "identity observations not found")
    state = {p: plain(O.hyp(elems(st)[AT[p]])) for p, _ in PARAMS}
    back = {v: p for p, v in state.items()}
    for e in cand:
        v = plain(O.hyp(e.d["val"]))
        ps = {back[x] for x in walk(v) if x in back}
        if len(ps) != 1:
            ctx.unk("rows", e.where, "parameter of an identity observation not recognised")
            continue
        p = ps.pop()
        if p in found:
            ctx.bad("row:" + p, e.where, "two identity observations of the same parameter")
            continue
        found[p] = e
        ctx.same("row:%s:obs" % p, e.where, v, tm.sub(field0(par, p), state[p]), "identity observation of %s: given value minus current one" % p)
    if len(found) != len(PARAMS):
        return
    first = found["int_par.cc"].key
    for k, (p, fl) in enumerate(PARAMS):
        e = found[p]
        ctx.same("row:%s:place" % p, e.where, plain(tm.sub(e.key, first)), num(k), "row of the identity observation of %s" % p)
    # columns of the identity rows
    ids = [e for e in O.r.ev("store") if len(e.loops) == len(O.obs[0].loops) and e.loops[-1].idx is not O.loop.idx and isinstance(e.key, T) and isinstance(e.d["val"], T) and e.d["val"] is num(1)
           and e.base.op in ("sel", "row")]
    for e in ids:
        i = e.loops[-1].idx
        rk = plain(tm.sub(e.base.args[1], first))
        a, b = compare(rk, i)[0], None
        if a != "eq" and compare(plain(tm.sub(tm.subst(rk, {i: num(1)}), tm.subst(rk, {i: num(0)}))), num(1))[0] != "eq":
            continue
        ctx.same("row:column", e.where, plain(tm.sub(e.key, rk)), num(6), "the one of identity row k is in the column of parameter k")
    # weights
    ws = {}
    for e in outer:
        if e.base is not yobj and e.base.op == "obj" and O.location(e.base, e.key) is None:
            for p, o in found.items():
                if e.key is o.key:
                    ws.setdefault(p, []).append(e)
    for p, fl in PARAMS:
        if len(ws.get(p, ())) != 1:
            ctx.unk("weight:" + p, where(f), "weight not found")
            continue
        e = ws[p][0]
        v = e.d["val"]
        a, b = on(v, flag(f, fl)), on(v, flag(f, fl), False)
        if a.op == "num" and b.op in ("num", "inf"):
            (ctx.hold if b.op == "inf" or val(b) > 1000 * val(a) else ctx.bad)("weight:" + p, e.where, "%s is held by its weight exactly where %s is not set" % (p, fl))
        elif any(x in {flag(f, q) for _, q in PARAMS} for t in (a, b) for x in walk(t)):
            ctx.bad("weight:" + p, e.where, "the weight of %s is governed by another flag than %s" % (p, fl))
        else:
            ctx.unk("weight:" + p, e.where, "weight not constant")


def solution(ctx, f, O):
    """the solver gets the columns from the first one on"""
    for t in {x for e in O.r.ev("store") if isinstance(e.d["val"], T) for x in walk(e.d["val"]) if x.op == "fn" and str(x.args[0]).endswith("lstsq")}:
        X = t.args[1]
        if X.op == "sel" and X.args[1].op == "mkey" and len(X.args[1].args) == 2 and all(isinstance(s, T) and s.op == "slice" for s in X.args[1].args):
            rs, cs = X.args[1].args
            if cs.args[0].op in ("none", "num"):
                (ctx.hold if cs.args[0].op == "none" or cs.args[0] is num(0) else ctx.bad)("solve", where(f), "corrections are numbered by the columns")
            hi = cs.args[1]
            fl = flag(f, "interfflag")
            if on(hi, fl, False).op == "num" and val(on(hi, fl, False)) < 16 or on(hi, fl).op == "num" and val(on(hi, fl)) < 18:
                ctx.bad("solve:columns", where(f), "columns of adjusted parameters are left out")
            else:
                ctx.hold("solve:columns", where(f), "all adjusted columns take part")


def converted(ctx):
    """points given as an array become targets with their own coordinates and, where the adjustment looks for it, their own number"""
    for q, callee in (("full_calibration", "orient"), ("external_calibration", "raw_orient")):
        f = ctx.func("orientation", q)
        if f is None or "img_pts" not in f.params:
            continue
        n = 3
        img = mat("img", n, 2)
        r = ctx.run("orientation", q, {"img_pts": img, "ref_pts": mat("ref", n, 3)}, opaque=("orient", "raw_orient", "is_used_for_orientation"), unroll=8, key="conv")
        if r is None:
            continue
        for e in r.ev("call"):
            if e.name.split(".")[-1] != callee or e.args.get("pix") is None:
                continue
            for i in range(n):
                for k, w in (("x", elems(elems(img)[i])[0]), ("y", elems(elems(img)[i])[1]), ("pnr", num(i))):
                    if k == "pnr" and callee != "orient":
                        continue
                    try:
                        v = r.field(r.elem(e.args["pix"], i), k)
                    except (Undecided, TooBig) as ex:
                        ctx.unk("points:%s:%s" % (q, k), e.where, str(ex))
                        continue
                    kinds = {x: TRUE if "ndarray" in show(x.args[1]) else FALSE for x in walk(v) if x.op == "isinst" and len(x.args) > 1}
                    v = tm.subst(v, kinds) if kinds else v
                    ctx.same("points:%s:%s" % (q, k), e.where, v, w, "%s of the target made from point %d is that of the point" % (k, i))


def full(ctx):
    f = ctx.func("orientation", "full_calibration")
    if f is None:
        return
    r = ctx.run("orientation", "full_calibration", opaque=("orient", "is_used_for_orientation"))
    if r is None:
        return
    wh = where(f)
    oc = [e for e in r.ev("call") if e.name.split(".")[-1] == "orient"]
    g = ctx.pkg.func("orientation", "orient")
    if len(oc) == 1 and g is not None:
        pn = {"nfix", "fix", "pix"}
        a = oc[0].args
        if pn <= set(a) and "ref_pts" in f.params:
            ref = mk("sym", "ref_pts")
            ctx.same("full:points", oc[0].where, a["fix"], ref, "the reference points are adjusted to")
            ctx.same("full:number", oc[0].where, a["nfix"], tm.length(ref), "all reference points are considered")
    ret = r.ret()
    if ret.op != "seq" or len(elems(ret)) != 3:
        return ctx.unk("full", wh, "result not understood")
    res, us = elems(ret)[0], elems(ret)[1]
    # points used
    c = us
    while c.op in ("snap", "cp", "fn") and c.args and isinstance(c.args[-1], T) and c.op != "snap":
        c = c.args[-1]
    if c.op == "comp" and len(c.args) == 5:
        i, lo, hi, v, cond = c.args
        calls = [x for x in walk(cond) if is_call(x, "is_used_for_orientation")]
        ctx.same("used:index", wh, v, i, "indices of the points used are returned")
        if "ref_pts" in f.params:
            ctx.same("used:range", wh, seq([lo, hi], "tuple"), seq([num(0), tm.length(mk("sym", "ref_pts"))], "tuple"), "all points are considered")
        if len(set(calls)) == 1:
            x = calls[0]
            if cond is tm.truth(x) and (x.args[1] is i):
                ctx.hold("used:test", wh, "points used are those that took part in the adjustment")
            elif cond is not_(tm.truth(x)) or compare(x.args[1], i)[0] == "ne":
                ctx.bad("used:test", wh, "points returned as used are not those of the adjustment")
            else:
                ctx.unk("used:test", wh, "points used")
            tg = oc[0].args.get("pix") if len(oc) == 1 else None
            if tg is not None and len(x.args) == 4 and (x.args[2] is tg or compare(x.args[2], tg)[0] == "eq"):
                ctx.hold("used:targets", wh, "the same targets as in the adjustment")
        elif cond is TRUE:
            ctx.bad("used:test", wh, "all points are returned as used")
        elif len(oc) == 1 and oc[0].args.get("pix") is not None and oc[0].args.get("flags") is not None:
            want = tm.truth(ctx.spec("s_used_for_orientation", (i, oc[0].args["pix"], oc[0].args["flags"])).ret())
            a, b = implied(cond, want), implied(want, cond)
            (ctx.bad if False in (a, b) else ctx.hold if a and b else ctx.unk)("used:test", wh, "points returned as used are those of the adjustment")
        else:
            ctx.unk("used:test", wh, "points used")
    else:
        ctx.unk("used", wh, "list of points used not understood")
    # residuals
    done = False
    for e in r.ev("store"):
        v = e.d["val"]
        if not e.loops or not isinstance(v, T) or not any(is_call(x, "orient") for x in walk(v)):
            continue
        ix = e.loops[-1].idx
        rs = [x for x in walk(v) if x.op == "sel" and is_call(x.args[0], "orient")]
        if v.op == "seq" and len(elems(v)) == 2 and e.key is ix:
            done = True
            for k, x in enumerate(elems(v)):
                if x.op == "sel" and is_call(x.args[0], "orient"):
                    ctx.same("residual:%d" % k, e.where, x.args[1], tm.add(tm.mul(num(2), ix), num(k)), "residual %s of the point in the row of the point" % "xy"[k])
    if not done:
        ctx.unk("residual", wh, "residuals not understood")
