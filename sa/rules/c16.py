"""C16: calibration points get the nearest detection within the radius."""
import ast

from ..rulekit import *
from .c17 import cmp
from .c18 import marker
from .c20 import best_so_far

TECHNIQUE = ("guard analysis of the search: the path condition of the statement choosing a detection is compared, in both directions, with the strict window around the "
             "projection and the distance kept so far; value-graph comparison of projection, radius, result position and matched data in the pairing of points")
OPQ = ("nearest_neighbour_pix", "img_coord", "metric_to_pixel")


def check(ctx):
    ctx.rule("A detection is chosen exactly when it lies strictly within the radius in both directions and nearer than the one chosen before, whose distance is kept with "
             "it; all detections are looked at; without one the marker for no detection is returned. For every calibration point the search starts from its projection "
             "through the given calibration, with the given radius, exactly when the projection is in the image widened by the radius; the match is stored at the "
             "point's place as an object of its own with the detection's data and the point's number, and without a match an unused target stays there.")
    search(ctx)
    pairing(ctx)


def both(ctx, tag, e, g, need, extra=TRUE, what="condition"):
    """path condition g is the conjunction of the literals needed (loop bounds aside)"""
    for name, lit in need:
        v = implied(g, lit)
        if v is None and not any(mentions(g, a) for a in atoms(lit)):
            v = False
        (ctx.hold if v else ctx.bad if v is False else ctx.unk)(tag, e.where, "%s: %s" % (what, name))
    pre = and_(extra, *[lit for _, lit in need])
    for c in conjuncts(g):
        if c is TRUE:
            continue
        v = implied(pre, c)
        if v is False and any(not known(x) for x in walk(c)):
            v = None
        (ctx.hold if v else ctx.bad if v is False else ctx.unk)(tag, e.where, "%s: nothing beyond it is required (%s)" % (what, show(c, 4)[:60]))


def known(x):
    return x.op not in ("mu", "muout", "exc", "wit", "lastwit", "ex")


def atoms(lit):
    return [x for x in walk(lit) if x.op == "sel" and x.args[1].op == "str"] or [x for x in walk(lit) if x.op in ("sym", "sel")]


def bounds(e):
    return and_(*[and_(tm.le(L.lo, L.idx), lt(L.idx, L.hi)) for L in e.loops if L.hi.op != "inf"])


def search(ctx):
    f = ctx.func("sortgrid", OPQ[0])
    if f is None or len(f.params) != 4:
        return ctx.unk("anchor", OPQ[0], "not found")
    r = ctx.run("sortgrid", OPQ[0])
    if r is None:
        return
    pix, x, y, eps = [mk("sym", p) for p in f.params]
    ret = r.ret()
    un = marker(ctx, "PT_UNUSED")
    name = ret.args[1] if ret.op == "muout" and isinstance(ret.args[1], str) else None
    back = [e.node.value.id for e in r.ev("return") if isinstance(getattr(e.node, "value", None), ast.Name)]
    if name is None and len(set(back)) == 1 and len(r.ev("return")) == len(back):
        name = back[0]
    if name is None:
        return ctx.unk("search", where(f), "result %s" % show(ret, 4)[:60])
    sites = [e for e in r.ev("assign") if e.name == name and e.loops]
    for e in [e for e in r.ev("assign") if e.name == name and not e.loops]:
        if un is not None:
            (ctx.hold if e.val is un else ctx.bad if e.val.op == "num" else ctx.unk)("none found", e.where, "the result without a detection is the marker for an unused point")
    if not sites:
        ctx.unk("search", where(f), "choice of a detection not recognised")
    for e in sites:
        j, L = e.val, e.loops[-1]
        if j is not L.idx:
            t = mk("sel", pix, L.idx)
            if compare(j, L.idx)[0] == "ne" and not mentions(e.guard, mk("sel", pix, j)) and mentions(e.guard, t):
                ctx.bad("search", e.where, "detection %s is compared but %s is returned" % (show(L.idx), show(j)))
                continue
            ctx.unk("search", e.where, "detection %s" % show(j, 4)[:60])
            continue
        t = mk("sel", pix, j)
        tx, ty = mk("sel", t, string("x")), mk("sel", t, string("y"))
        n = tm.sub(L.hi, mk("len", pix))
        if L.lo is ZERO and n is ZERO:
            ctx.hold("all looked at", e.where)
        elif compare(L.lo, ZERO)[0] == "ne" or n.op == "num":
            ctx.bad("all looked at", e.where, "only detections %s to %s are looked at" % (show(L.lo, 3), show(L.hi, 3)))
        else:
            ctx.unk("all looked at", e.where, "detections up to %s" % show(L.hi, 3)[:60])
        need = [("to the right of the left end", lt(sub(x, eps), tx)), ("to the left of the right end", lt(tx, add(x, eps))),
                ("below the upper end", lt(sub(y, eps), ty)), ("above the lower end", lt(ty, add(y, eps)))]
        # the comparison with the best so far is judged on its own
        mus = [c for c in conjuncts(e.guard) if any(z.op == "mu" for z in walk(c))]
        g = and_(*[c for c in conjuncts(e.guard) if c not in mus])
        d2 = add(mul(sub(x, tx), sub(x, tx)), mul(sub(y, ty), sub(y, ty)))
        both(ctx, "search", e, g, need, bounds(e), "a detection is chosen when it lies")
        if not mus and not any(mentions(c, tx) and mentions(c, ty) for c in conjuncts(e.guard)):
            ctx.bad("nearest", e.where, "the last detection within the radius is chosen, not the nearest")
        else:
            best_so_far(ctx, "nearest", r, e, d2)
        for c in mus:
            for m in {z for z in walk(c) if z.op == "mu"}:
                for i in [i for i in r.ev("assign") if i.name == m.args[1] and not i.loops]:
                    v = i.val
                    if v.op == "num":
                        (ctx.hold if v.args[0] >= 10 ** 6 else ctx.bad)("start", i.where, "the search starts from a distance beyond any image (%s)" % show(v))
                    elif v.op == "inf":
                        ctx.hold("start", i.where)
                    else:
                        w = implied(and_(*[lit for _, lit in need]), tm.subst(c, {m: v}))
                        (ctx.hold if w else ctx.bad if w is False else ctx.unk)("start", i.where, "any detection within the radius is nearer than the start of the search (%s)" % show(v, 4))
        for b in r.ev("break", "return"):
            if b.loops and b.loops[-1] is L:
                v = implied(and_(b.guard, bounds(b)), and_(*[c for c in conjuncts(e.guard) if mentions(c, tx) or mentions(c, ty)]))
                near = implied(b.guard, tm.eq(d2, ZERO))
                (ctx.hold if near else ctx.bad if v else ctx.unk)("all looked at", b.where, "the search does not stop at the first detection within the radius")


def pairing(ctx):
    f = ctx.func("sortgrid", "sortgrid")
    if f is None or len(f.params) != 6:
        return ctx.unk("anchor", "sortgrid", "not found")
    r = ctx.run("sortgrid", "sortgrid", opaque=OPQ)
    if r is None:
        return
    cal, cpar, nfix, fix, eps, pix = [mk("sym", p) for p in f.params]
    calls = [e for e in r.ev("call") if e.name == OPQ[0]]
    for e in r.ev("store"):
        b = e.base
        if b is pix or (b.op == "sel" and b.args[0] is pix):
            ctx.bad("input", e.where, "the detections given are changed: %s[%s]" % (show(b, 3), show(e.key, 3)))
    if not calls:
        return ctx.unk("pairing", where(f), "search not recognised")
    for e in calls:
        a = list(e.args.values())
        q = [p for p in (ctx.func("sortgrid", OPQ[0]).params)]
        ar = [e.args.get(p) for p in q]
        if len(ar) != 4 or any(t is None for t in ar):
            ctx.unk("pairing", e.where, "arguments")
            continue
        idx = e.loops[-1].idx if e.loops else None
        if idx is None:
            ctx.unk("pairing", e.where, "no loop over points")
            continue
        im = mk("call", cname(r, "img_coord"), mk("sel", fix, idx), cal, mk("sel", cpar, string("mm")))
        px = mk("call", cname(r, "metric_to_pixel"), mk("sel", im, ZERO), mk("sel", im, ONE), cpar)
        P = [mk("sel", px, ZERO), mk("sel", px, ONE)]
        for n, t, w in zip(("detections", "x", "y", "radius"), ar, (pix, P[0], P[1], eps)):
            if t is w:
                ctx.hold("pairing", e.where, "search %s" % n)
            elif known_value(t, f):
                ctx.bad("pairing", e.where, "the search gets %s as %s, not %s" % (show(t, 9)[:120], n, show(w, 9)[:120]))
            else:
                ctx.unk("pairing", e.where, "search %s %s" % (n, show(t, 5)[:80]))
        if any(t is not w for t, w in zip(ar, (pix, P[0], P[1], eps))):
            continue
        need = [("right of the widened left border", lt(sub(ZERO, eps), P[0])), ("below the widened upper border", lt(sub(ZERO, eps), P[1])),
                ("left of the widened right border", lt(P[0], add(mk("sel", cpar, string("imx")), eps))),
                ("above the widened lower border", lt(P[1], add(mk("sel", cpar, string("imy")), eps)))]
        lo = and_(bounds(e), tm.le(ZERO, mk("call", cname(r, OPQ[0]), *ar)))
        stores = [s for s in r.ev("store") if s.loops and s.loops[-1] is e.loops[-1] and s.key.op != "str"]
        term = mk("call", cname(r, OPQ[0]), *ar)
        un = marker(ctx, "PT_UNUSED")
        for s in stores:
            g = s.guard
            found = not_(tm.eq(term, un)) if un is not None else TRUE
            gg = and_(*[c for c in conjuncts(g)])
            both(ctx, "pairing", s, gg, need + [("matched", found)], lo, "a match is taken when the projection is")
            (ctx.hold if s.key is idx else ctx.bad if compare(s.key, idx)[0] == "ne" else ctx.unk)("place", s.where, "the match stands at the place of its point")
            match(ctx, r, s, mk("sel", pix, term), idx)
        if not stores:
            ctx.unk("pairing", where(f), "no match is stored")
        L = e.loops[-1]
        d = tm.sub(L.hi, nfix)
        (ctx.hold if L.lo is ZERO and d is ZERO else ctx.bad if L.lo.op == "num" and d.op == "num" else ctx.unk)("all points", e.where, "points %s to %s are matched" % (show(L.lo, 3), show(L.hi, 3)))
    result(ctx, f, r, nfix)


def cname(r, q):
    for e in r.ev("call"):
        if e.name == q:
            return e.mod + "." + q if not any(x.op == "call" and x.args[0] == q for x in walk_all(r)) else q
    return q


def walk_all(r):
    seen = set()
    for e in r.events:
        for v in list(e.d.values()) + (list(e.d["args"].values()) if isinstance(e.d.get("args"), dict) else []):
            if isinstance(v, T) and v.id not in seen:
                seen.add(v.id)
                yield from walk(v)


def known_value(t, f):
    ok = {"sel", "call", "sym", "num", "poly", "str", "idx", "phi", "seq"}
    return all(x.op in ok for x in walk(t))


def match(ctx, r, s, det, idx):
    v = s.val
    if v is det:
        return ctx.bad("match", s.where, "the detection itself is stored, without the number of its point")
    if v.op != "obj":
        return ctx.unk("match", s.where, "match %s" % show(v, 4)[:60])
    for n in ("x", "y", "n", "nx", "ny", "sumg", "tnr", "pnr"):
        want = idx if n == "pnr" else mk("sel", det, string(n))
        try:
            t = r.field(v, n)
        except Exception:
            ctx.unk("match", s.where, n)
            continue
        for c in conjuncts(s.guard):
            t = tm.deep_assume(t, c)
        if t is want:
            ctx.hold("match", s.where, n)
        elif t.op in ("num", "poly", "idx") or known_value(t, None) and not any(x.op == "phi" for x in walk(t)):
            ctx.bad("match", s.where, "field %s of a match is %s, not %s" % (n, show(t, 5)[:80], show(want, 5)[:80]))
        else:
            ctx.unk("match", s.where, "field %s: %s" % (n, show(t, 4)[:60]))


def result(ctx, f, r, nfix):
    """one unused target per point to begin with"""
    new = [e for e in r.ev("new") if e.d.get("cls") == "Target" and not e.d.get("how") and not any(mentions(x, mk("sym", f.params[5])) for x in list(e.args) + [x for x in e.kw.values() if isinstance(x, T)])]
    un = marker(ctx, "PT_UNUSED")
    for e in new:
        v = e.kw.get("pnr", e.args[0] if e.args else None)
        if v is not None and un is not None:
            (ctx.hold if v is un else ctx.bad if v.op in ("num", "idx") else ctx.unk)("result", e.where, "a new target is marked as unused")
        L = e.loops[-1] if e.loops else None
        if L is None:
            pix = mk("sym", f.params[5])
            made = [c for c in r.ev("new") + r.ev("copy") if c.loops and (c.d.get("how") or c.kind == "copy")
                    and not mentions((c.args or [ZERO])[0] if c.kind == "new" else c.src, pix)]
            if made:
                ctx.unk("result", e.where, "the targets are copies of one made before")
            else:
                ctx.bad("result", e.where, "all points share one target")
            continue
        d = tm.sub(L.hi, nfix)
        (ctx.hold if L.lo is ZERO and d is ZERO else ctx.bad if L.lo.op == "num" and d.op == "num" else ctx.unk)("result", e.where, "one target per point")
    c = next((m.classes["Target"] for m in ctx.pkg.mods.values() if "Target" in m.classes), None)
    for n in (c.node.body if c is not None else ()):
        if isinstance(n, ast.AnnAssign) and getattr(n.target, "id", "") == "pnr" and n.value is not None and un is not None:
            v = marker(ctx, n.value.id) if isinstance(n.value, ast.Name) else None
            try:
                v = v or num(ast.literal_eval(n.value))
            except (ValueError, TypeError):
                pass
            (ctx.unk if v is None else ctx.hold if v is un else ctx.bad)("result", "Target.pnr", "a new target is marked as unused")
