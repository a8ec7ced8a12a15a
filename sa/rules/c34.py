"""C34: the search in the images for continuations of a particle."""
import random
from fractions import Fraction as F
from ..rulekit import *
from .. import pit
from .c18 import marker

TECHNIQUE = ("symbolic value-graph comparison of the searches with their definition on explicit lists of up to five detections with symbolic positions, of the search window "
             "with the box of the velocity limits for one and two cameras, and of the registered candidates with the detections they stand for")
NOTE = "Lists of more than five detections differ by the start of the search only, which is not decided (see C13)."
M = "track"


def check(ctx):
    ctx.rule("For every list of up to five detections (symbolic positions, sorted by y as the readers of frames leave them) the indices offered by candsearch_in_pix and candsearch_in_pix_rest are "
             "those of the nearest detections of the right kind strictly inside the window clipped to the image; the window of searchquader is bounded by the extreme projections "
             "of the corners of the box of velocity limits, clipped to the image, in every camera; register_closest_neighbs stores, for each index offered, the particle number "
             "of that detection and the mark of the camera, and the marker for none otherwise; sorted_candidates_in_volume hands register_closest_neighbs, for every camera, "
             "that camera's detections, centre and window and its own places, and its list ends with an unused place.")
    four(ctx)
    rest(ctx)
    window(ctx)
    register(ctx)
    volume(ctx)


def things(n):
    return [mk("sym", "t%d" % i) for i in range(n)]


def fld(t, k):
    return mk("sel", t, string(k))


def order(ts, cx, cy):
    """sorted by y, no two at the same distance"""
    out = []
    d = [add(mul(sub(fld(t, "x"), cx), sub(fld(t, "x"), cx)), mul(sub(fld(t, "y"), cy), sub(fld(t, "y"), cy))) for t in ts]
    for i in range(len(ts)):
        if i:
            out.append(le(fld(ts[i - 1], "y"), fld(ts[i], "y")))
        for j in range(i):
            out.append(ne(d[i], d[j]))
    return and_(*out)


NAMES = ("cent_x", "cent_y", "dl", "dr", "du", "dd")


def scene(ts, wanted):
    """sets a point of comparison: a centre mostly inside the image, detections around the window, often on its borders"""
    s = lambda n: mk("sym", n)

    def pre(env):
        rnd = random.Random(env.seed * 7 + len(ts))
        env.memo.clear()
        val = {}
        put = lambda t, v: val.__setitem__(t, v)
        size = {"x": rnd.randint(300, 900), "y": rnd.randint(300, 900)}
        cen = {}
        for a in "xy":
            put(fld(s("cpar"), "im" + a), size[a])
            cen[a] = rnd.choice([rnd.randint(1, 60), rnd.randint(60, size[a] - 60), size[a] - rnd.randint(1, 60), rnd.choice([0, size[a], -5, size[a] + 5])] if rnd.random() < 0.4
                                else [rnd.randint(100, size[a] - 100), rnd.randint(0, size[a])])
            put(s("cent_" + a), cen[a])
        wid = {k: rnd.randint(20, 150) for k in ("dl", "dr", "du", "dd")}
        for k, v in wid.items():
            put(s(k), v)
        away = rnd.random() < 0.2
        at = []
        for t in ts:
            p = []
            for a, lo, hi in (("x", "dl", "dr"), ("y", "du", "dd")):
                f = F(rnd.randint(1, 999), 1000)
                v = cen[a] - wid[lo] + f * (wid[lo] + wid[hi])
                if rnd.random() < (0.4 if away else 0.06):
                    v = rnd.choice([cen[a] - wid[lo], cen[a] + wid[hi], 0, size[a], cen[a] - wid[lo] - 7, cen[a] + wid[hi] + 7, -3, size[a] + 3])
                p.append(v)
            at.append(p)
        at.sort(key=lambda p: p[1])
        used = rnd.choice([wanted, wanted, wanted, wanted, 0.1, 0.5, 0.9])
        for t, p in zip(ts, at):
            put(fld(t, "x"), p[0])
            put(fld(t, "y"), p[1])
            put(fld(t, "tnr"), -1 if rnd.random() < used else rnd.randint(0, 9))
        for t, v in val.items():
            k = pit._ckey(t, env)
            env.names[k] = t
            env.vals[k] = v
    return pre


def sizes(n):
    return range(1, n + 1)


def search(ctx, q, spec, n, extra):
    f = ctx.func(M, q)
    if f is None or len(f.params) < 9 or not set(NAMES) <= set(f.params) or "cpar" not in f.params:
        return ctx.unk("anchor", q, "not found")
    ts = things(n)
    lst = seq(ts, "list")
    cx, cy = mk("sym", "cent_x"), mk("sym", "cent_y")
    cpar = mk("sym", "cpar")
    assume = and_(order(ts, cx, cy), *[gt(fld(cpar, k), ZERO) for k in ("imx", "imy")], *[gt(mk("sym", k), ZERO) for k in NAMES[2:]])
    args = {f.params[0]: lst, f.params[1]: num(n)}
    args.update(extra(f))
    r = ctx.run(M, q, args, unroll=8, key=(q, n))
    if r is None:
        return None
    return f, r, ts, lst, assume


def four(ctx):
    for n in sizes(6 if ctx.tier == "thorough" else 5):
        x = search(ctx, "candsearch_in_pix", "s_nearest_four", n, lambda f: {})
        if not x:
            return
        f, r, ts, lst, assume = x
        want = ctx.spec("s_nearest_four", (lst, num(n)) + tuple(mk("sym", k) for k in NAMES) + (mk("sym", "cpar"),), unroll=8).ret()
        got = r.ret()
        for k in range(4):
            try:
                g, w = r.elem(got, k), elems(want)[k]
            except (Undecided, TooBig) as ex:
                ctx.unk("four", where(f), str(ex))
                continue
            ctx.same("four", where(f), g, w, "place %d of the result holds the detection of rank %d by distance inside the window (of %d)" % (k, k, n), assume, pre=scene(ts, 0.0))


def rest(ctx):
    for n in sizes(6 if ctx.tier == "thorough" else 5):
        x = search(ctx, "candsearch_in_pix_rest", "s_nearest_rest", n, lambda f: {})
        if not x:
            return
        f, r, ts, lst, assume = x
        if "p" not in f.params:
            return ctx.unk("anchor", f.name, "result array not found")
        p = mk("sym", "p")
        old = mk("sel", p, ZERO)
        want = ctx.spec("s_nearest_rest", (lst, num(n)) + tuple(mk("sym", k) for k in NAMES) + (num(-1), mk("sym", "cpar")), unroll=8).ret()
        try:
            g = tm.subst(r.elem(p, 0), {old: num(-1)})
        except (Undecided, TooBig) as ex:
            ctx.unk("rest", where(f), str(ex))
            continue
        ctx.same("rest", where(f), g, want, "the nearest unused detection inside the window is found (of %d)" % n, assume, pre=scene(ts, 1.0))
        ctx.same("rest:count", where(f), tm.subst(r.ret(), {old: num(-1)}), phi(eq(want, num(-1)), ZERO, ONE), "the number found is one exactly if there is such a detection (of %d)" % n, assume, pre=scene(ts, 1.0))


def window(ctx):
    f = ctx.func(M, "searchquader")
    if f is None or len(f.params) != 4 or ctx.func(M, "point_to_pixel") is None:
        return ctx.unk("anchor", "searchquader", "not found")
    pt = vec("point", 3)
    for nc in (1, 2):
        cals = seq([mk("sym", "cal%d" % i) for i in range(nc)], "list")
        sets = ((f.params[2] + ".num_cams", num(nc)),)
        a = {f.params[0]: pt, f.params[3]: cals}
        r = ctx.run(M, "searchquader", a, opaque=("point_to_pixel",), unroll=9, sets=sets, key=("q", nc))
        if r is None:
            return
        want = ctx.spec("s_quader", (pt, mk("sym", f.params[1]), mk("sym", f.params[2]), cals), opaque=("point_to_pixel",), unroll=9, sets=sets).ret()
        cpar = mk("sym", f.params[2])
        assume = and_(*[gt(fld(cpar, k), ZERO) for k in ("imx", "imy")])
        for c in range(nc):
            for i, nm in enumerate(("right", "left", "lower", "upper")):
                try:
                    g = r.elem(r.ret(), i, c)
                except (Undecided, TooBig) as ex:
                    ctx.unk("window", where(f), str(ex))
                    continue
                ctx.same("window:" + nm, where(f), g, elems(elems(want)[c])[i], "%s border of the window of camera %d is the extreme projection of the box of velocity limits" % (nm, c),
                         assume, soft=("point_to_pixel",))


def register(ctx):
    q = "register_closest_neighbs"
    f = ctx.func(M, q)
    if f is None or not {"targets", "cam", "reg"} <= set(f.params):
        return ctx.unk("anchor", q, "not found")
    none = marker(ctx, "TR_UNUSED")
    if none is None:
        return ctx.unk("anchor", q, "marker not found")
    tg, cam, reg = [mk("sym", k) for k in ("targets", "cam", "reg")]
    r = ctx.run(M, q, opaque=("candsearch_in_pix",), unroll=8, key="reg")
    if r is None:
        return
    calls = {c for e in r.events for v in e.d.values() if isinstance(v, T) for c in walk(v) if c.op == "call" and c.args[0].split(".")[-1] == "candsearch_in_pix"}
    if len(calls) != 1:
        return ctx.unk("register", where(f), "%d searches" % len(calls))
    call = calls.pop()
    names = ctx.func(M, "candsearch_in_pix").params
    if len(names) != len(call.args) - 1 or not set(NAMES) <= set(names):
        ctx.unk("register:window", where(f), "arguments of the search not recognised")
    else:
        for n, a in zip(names, call.args[1:]):
            if n in NAMES:
                ctx.same("register:window", where(f), a, mk("sym", n), "the search gets the %s it was given" % n)
    for k in range(4):
        c = mk("sel", call, num(k))
        found = ne(c, none)
        try:
            t = mk("sel", reg, num(k))
            got, seen = r.field(t, "ftnr"), r.elem(r.ip.getattr(r.st, t, "whichcam", None), cam)
        except (Undecided, TooBig) as ex:
            ctx.unk("register", where(f), str(ex))
            continue
        if any(x.op == "idx" for v in (got, seen) for x in walk(v)):
            ctx.unk("register", where(f), "the entries of the result are not told apart")
            continue
        was = mk("sel", mk("sel", t, string("whichcam")), cam)
        ctx.same("register", where(f), under(got, not_(found)), none, "place %d is marked as unused where nothing was found" % k, not_(found))
        ctx.same("register", where(f), under(got, found), mk("sel", mk("sel", tg, c), string("tnr")), "place %d refers to the particle of the detection found" % k, found)
        ctx.same("register:camera", where(f), under(seen, found), ONE, "place %d counts the camera" % k, found)
        ctx.same("register:camera", where(f), under(seen, not_(found)), was, "place %d does not count the camera where nothing was found" % k, not_(found))


def under(t, c):
    for x in conjuncts(c):
        t = tm.deep_assume(t, x)
    return t


SEARCH, REG, FREQ = "searchquader", "register_closest_neighbs", "sort_candidates_by_freq"
SIDES = {"dr": 0, "dl": 1, "dd": 2, "du": 3}


def volume(ctx):
    """every camera is searched with its own detections, centre and window; the list handed back ends with an unused place"""
    q = "sorted_candidates_in_volume"
    f = ctx.func(M, q)
    fs = [ctx.func(M, n) for n in (SEARCH, REG, FREQ)]
    if f is None or None in fs or len(f.params) != 4:
        return ctx.unk("anchor", q, "not found")
    center, proj, frm, run = (mk("sym", p) for p in f.params)
    for nc in (1, 2, 3, 4):
        r = ctx.run(M, q, sets=((f.params[2] + ".num_cams", num(nc)),), unroll=9, opaque=(SEARCH, REG, FREQ, "reset_foundpix_array"), key=("v", nc))
        if r is None:
            return
        calls = {n: [e for e in r.ev("call") if e.d["name"].split(".")[-1] == n] for n in (SEARCH, REG, FREQ)}
        if len(calls[SEARCH]) != 1 or any(e.loops for e in calls[REG]) or len(calls[FREQ]) != 1:
            ctx.unk("cameras", where(f), "searches not recognised")
            continue
        if len(calls[REG]) != nc:
            ctx.bad("cameras", where(f), "%d of %d cameras are searched" % (len(calls[REG]), nc))
            continue
        e = calls[SEARCH][0]
        if fs[0].params[0] in e.d["args"]:
            ctx.same("cameras:center", e.where, r.ip.snap(r.st, e.d["args"][fs[0].params[0]]), center, "the window is that around the centre of the volume")
        win = next((x for c in calls[REG] for a in c.d["args"].values() for x in walk(a) if x.op == "call" and x.args[0].split(".")[-1] == SEARCH), None)
        base = set()
        for c, e in enumerate(calls[REG]):
            a = {k: r.ip.snap(r.st, v) if v.op == "seq" else v for k, v in e.d["args"].items()}
            if not {"targets", "num_targets", "cam", "cent_x", "cent_y", "dl", "dr", "du", "dd", "reg"} <= set(a) or win is None:
                ctx.unk("cameras", e.where, "arguments of the search not recognised")
                continue
            k = a["cam"]
            if not is_int_const(k):
                ctx.unk("cameras", e.where, "camera of the search not recognised")
                continue
            want = {"targets": mk("sel", fld(frm, "targets"), k), "num_targets": mk("sel", fld(frm, "num_targets"), k), "cent_x": mk("sel", mk("sel", proj, k), ZERO), "cent_y": mk("sel", mk("sel", proj, k), ONE)}
            want.update({d: mk("sel", mk("sel", win, num(i)), k) for d, i in SIDES.items()})
            what = {"targets": "detections", "num_targets": "number of detections", "cent_x": "centre in x", "cent_y": "centre in y", "dl": "left border", "dr": "right border", "du": "upper border", "dd": "lower border"}
            for n, w in want.items():
                if n == "num_targets" and a[n].op == "len":
                    continue
                ctx.same("cameras:" + n, e.where, a[n], w, "camera %s is searched with its own %s" % (show(k), what[n]))
            g = a["reg"]
            if g.op == "sel" and g.args[1].op == "slice" and g.args[1].args[2].op == "none":
                lo = g.args[1].args[0]
                base.add(g.args[0])
                ctx.same("cameras:place", e.where, ZERO if lo.op == "none" else lo, mul(num(4), k), "the candidates of camera %s have their own places" % show(k))
            else:
                ctx.unk("cameras:place", e.where, "places of the candidates")
        ks = {e.d["args"].get("cam") for e in calls[REG]}
        if all(k is not None and is_int_const(k) for k in ks):
            (ctx.hold if ks == {num(i) for i in range(nc)} else ctx.bad)("cameras", where(f), "every camera is searched (%d cameras)" % nc)
        # the list handed back
        ret = r.ret()
        cnt = next((x for x in walk(ret) if x.op == "call" and x.args[0].split(".")[-1] == FREQ), None)
        if cnt is None or len(base) != 1:
            ctx.unk("list", where(f), "list of the candidates not recognised")
            continue
        t = tm.deep_assume(ret, gt(cnt, ZERO))
        if t.op == "sel" and t.args[1].op == "slice" and t.args[0] in base and t.args[1].args[2].op == "none" and t.args[1].args[1].op != "none":
            lo, hi, _ = t.args[1].args
            ctx.same("list", where(f), ZERO if lo.op == "none" else lo, ZERO, "the list of candidates starts with the first")
            v = compare(hi, add(cnt, ONE))[0]
            (ctx.hold if v == "eq" else ctx.bad if v == "ne" and compare(hi, cnt)[0] == "eq" else ctx.unk)(
                "list", where(f), "the list handed back ends with an unused place, where the loops over it stop")
        else:
            ctx.unk("list", where(f), "list of the candidates not recognised")
