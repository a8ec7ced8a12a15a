"""C20: particles are added only when seen by two cameras inside the volume."""
from ..rulekit import *
from .c17 import OP, frameof, position, vector, timeof, coeff, cmp
from .c18 import marker

TECHNIQUE = ("guard analysis of every call that adds a particle (required camera count and volume limits must follow from its path condition) with value tracing of "
             "its arguments; symbolic value-graph comparison of the search around the predicted place and of the added particle with reference definitions")
AX = "xyz"
# field, index, axis, upper limit?
LIMITS = (("x_lay", 0, 0, False), ("x_lay", 1, 0, True), ("ymin", None, 1, False), ("ymax", None, 1, True), ("z_min_lay", 0, 2, False), ("z_max_lay", 1, 2, True))
ASSESS, ADD = "assess_new_position", "add_particle"


def check(ctx):
    ctx.rule("The path condition of every call adding a particle entails that at least two cameras saw a detection at the assessed place and that every component of the "
             "position lies strictly between the limits of its own axis; the position is the one reconstructed from the coordinates that assessment returned, the detections "
             "are those it returned, and the frame is the one it searched; the place is the predicted one for that frame. The assessment itself, and the particle, links, "
             "detections and count after adding, equal their definitions for every number of cameras from one to four.")
    n = 0
    for q in ("trackcorr_c_loop", "trackback_c"):
        f = ctx.func("track", q)
        if f is None or ctx.func("track", ADD) is None or ctx.func("track", ASSESS) is None:
            ctx.unk("anchor", q, "not found")
            continue
        r = ctx.run("track", q, opaque=OP)
        if r is None:
            continue
        es = [e for e in r.ev("call") if e.d["name"] == ADD]
        if not es:
            ctx.unk("added", where(f), "no added particle recognised")
        for e in es:
            Added(ctx, r, e).check()
    assess(ctx)
    nearest(ctx)
    add_particle(ctx)


def limit(t):
    """(field, index) of a limit of the volume, or None"""
    i = None
    if t.op == "sel" and t.args[1].op == "num":
        i, t = int(t.args[1].args[0]), t.args[0]
    if t.op == "sel" and t.args[1].op == "str":
        k = t.args[1].args[0]
        if any(k == l[0] and (l[1] is None) == (i is None) for l in LIMITS):
            return k, i
    return None


class Added:
    def __init__(self, ctx, r, e):
        self.ctx, self.r, self.e = ctx, r, e

    def component(self, t):
        """axis of the added position the term is, or None"""
        if t.op == "sel" and t.args[1].op == "num" and t.args[0] is self.pos:
            return int(t.args[1].args[0])
        return None

    def check(self):
        ctx, e = self.ctx, self.e
        a = e.d["args"]
        if not all(k in a for k in ("frm", "pos", "cand_inds")):
            return ctx.unk("added", e.where, "arguments not recognised")
        pos = a["pos"]
        s = self.r.ip.snap(self.r.st, pos) if pos.op == "obj" else pos
        if s.op == "seq" and elems(s) and all(x.op == "sel" and x.args[1] is num(i) and x.args[0] is elems(s)[0].args[0] for i, x in enumerate(elems(s))):
            s = elems(s)[0].args[0]
        self.pos = s
        call = None
        if s.op == "sel" and s.args[1] is ONE and s.args[0].op == "call" and s.args[0].args[0] == "point_position":
            call = s.args[0]
        if call is None:
            if not any(x.op == "call" and x.args[0] == "point_position" for x in walk(s)) and all(vector(v) is not None for v in alternatives(s)):
                return ctx.bad("position", e.where, "the added particle gets a predicted place, not a position reconstructed from detections")
            if any(x.op in ("mu", "muout", "phi", "opq", "unk", "hphi") for x in walk(s)):
                return ctx.unk("position", e.where, "position of the added particle not recognised")
            return ctx.bad("position", e.where, "the added particle does not get a position reconstructed from detections: %s" % show(s, 6)[:200])
        ps = ctx.func("orientation", "point_position")
        T_ = call.args[1]
        asc = None
        if T_.op == "sel" and T_.args[1] is ONE and T_.args[0].op == "call" and T_.args[0].args[0] == ASSESS:
            asc = T_.args[0]
        if asc is None or len(asc.args) != 4:
            found = [x for x in walk(T_) if x.op == "call" and x.args[0] == ASSESS]
            return (ctx.bad if found and T_ in [mk("sel", x, num(i)) for x in found for i in (0, 2)] else ctx.unk)(
                "position", e.where, "the position is not reconstructed from the coordinates found around the predicted place: %s" % show(T_, 5)[:200])
        ctx.hold("position", e.where, "the position is reconstructed from the coordinates found around the predicted place")
        # cameras, medium and calibrations of the reconstruction
        for i, nm, what in ((2, "num_cams", "number of cameras"), (3, "mm", "media"), (4, "cal", "calibrations")):
            x = call.args[i] if len(call.args) > i else None
            if x is None or fieldname(x) is None:
                ctx.unk("position", e.where, "%s of the reconstruction not recognised" % what)
            else:
                (ctx.hold if fieldname(x) == nm else ctx.bad)("position", e.where, "the %s of the reconstruction is %s" % (what, show(x, 5)[:100]))
        # frame
        fr, sf = frameof(a["frm"]), frameof(asc.args[2])
        if fr is None or sf is None:
            ctx.unk("frame", e.where, "frame of the added particle not recognised")
        else:
            (ctx.hold if fr == sf else ctx.bad)("frame", e.where, "the detections are searched in slot %s and the particle is added to slot %s" % (sf, fr))
        # predicted place
        for v in alternatives(asc.args[1]):
            d = vector(v)
            t = timeof(d)
            if t is None or sf is None:
                ctx.unk("place", e.where, "predicted place not recognised: %s" % show(v, 5)[:150])
            elif t == sf or len(d) == 1 and abs(t - sf) <= 1:
                ctx.hold("place", e.where, "the place searched is predicted for slot %s" % sf)
            else:
                ctx.bad("place", e.where, "the place searched in slot %s is predicted for slot %s" % (sf, t))
        # detections
        c = a["cand_inds"]
        if c.op == "sel" and c.args[0].op == "call" and c.args[0].args[0] == ASSESS:
            (ctx.hold if c is mk("sel", asc, num(2)) else ctx.bad)("detections", e.where, "the detections marked are those the position was reconstructed from")
        elif any(x.op in ("mu", "muout", "phi", "opq", "unk", "obj") for x in walk(c)):
            ctx.unk("detections", e.where, "detections of the added particle not recognised")
        else:
            ctx.bad("detections", e.where, "the detections of the added particle are not those found: %s" % show(c, 5)[:150])
        self.count(asc)
        self.volume()
        self.enabled()

    def count(self, asc):
        ctx, e = self.ctx, self.e
        n = mk("sel", asc, ZERO)
        best = None
        for c in conjuncts(e.guard):
            if c.op in ("le0", "lt0") and mentions(c, n):
                k = coeff(c.args[0], n)
                if k is not None and k[0] < 0 and k[1].op == "num":
                    v = k[1].args[0] / -k[0]
                    v = -(-v // 1) if c.op == "le0" else v // 1 + 1
                    best = v if best is None else max(best, v)
            if c.op == "eq0" and mentions(c, n):
                k = coeff(c.args[0], n)
                if k is not None and k[1].op == "num":
                    best = max(best or 0, -k[1].args[0] / k[0])
        if best is not None and best >= 2:
            return ctx.hold("count", e.where, "at least %s cameras see a detection" % best)
        # one camera passes every test of the number
        tests = [c for c in conjuncts(e.guard) if mentions(c, n)]
        own = [c for c in tests if c.op in ("le0", "lt0", "eq0", "not", "or") and all(x is n or x.op == "num" for x in leaves(c))]
        if best is None and own and len(own) == len(tests) - len([c for c in tests if not mentions(stripped(c, asc), n)]):
            for k in (0, 1):
                if all(tm.subst(c, {n: num(k)}) is not FALSE for c in own):
                    return ctx.bad("count", e.where, "a particle is added although only %d camera(s) see a detection" % k)
        if best is None and (any(mentions(c, n) for c in conjuncts(e.guard)) or hidden(e.guard, n)):
            return ctx.unk("count", e.where, "number of cameras is tested in a way not recognised")
        ctx.bad("count", e.where, "a particle is added although only %s camera(s) need to see a detection" % (
            best if best is not None else "no"))

    def beside(self, cs):
        """the tests of the volume are alternatives to one that has nothing to do with it"""
        if len(cs) != 1 or cs[0].op != "or":
            return False
        rest = [c for c in conjuncts(self.e.guard) if c is not cs[0]]
        return any(not any(limit(x) or x.op in ("opq", "unk", "hphi") or x.op == "call" and x.args[0] not in OP for x in walk(d)) and
                   not any(a.op in ("mu", "muout") for x in walk(d) if x.op in ("le0", "lt0", "eq0") for m in tm.topoly(x.args[0]) for a, k in m) and not tm.unsat(and_(d, *rest), 2)
                   for d in kids(cs[0]))

    def enabled(self):
        ctx, e = self.ctx, self.e
        flags = {x for x in walk(e.guard) if fieldname(x) == "add" and x.op == "sel"}
        cs = [c for c in conjuncts(e.guard) if any(x in flags for x in walk(c))]
        on = [c for x in flags for c in (truth(x), ne(x, ZERO), eq(x, ONE))]
        if any(c in on for c in cs):
            return ctx.hold("enabled", e.where, "only if adding is asked for")
        if any(not_(c) in on for c in cs):
            return ctx.bad("enabled", e.where, "particles are added if adding is not asked for")
        if cs or any(x.op == "call" and x.args[0] not in OP + ("sort_candidates_by_freq",) and any("tpar" in (fieldname(y) or "") for y in walk(x)) for x in walk(e.guard)):
            return ctx.unk("enabled", e.where, "test whether adding is asked for")
        ctx.bad("enabled", e.where, "a particle is added without a test whether adding is asked for")

    def volume(self):
        ctx, e = self.ctx, self.e
        lits = [c for c in conjuncts(e.guard) if c.op in ("lt0", "le0")]
        for fld, ix, ax, upper in LIMITS:
            what = "%s limit of the volume in %s" % ("upper" if upper else "lower", AX[ax])
            res = []
            for c in lits:
                for at in [m[0][0] for m in tm.topoly(c.args[0]) if len(m) == 1]:
                    if limit(at) == (fld, ix):
                        res.append((c, at))
            good, wrong = False, None
            for c, at in res:
                k = coeff(c.args[0], at)
                if k is None:
                    continue
                rest = mul(num(tm._q(-1, k[0])), k[1])
                comp = self.component(rest)
                if comp == ax and (k[0] < 0) == upper:
                    good = True
                elif comp is not None:
                    wrong = "the %s is compared with component %s on the %s side" % (what, AX[comp], "lower" if k[0] > 0 else "upper")
                elif (position(rest) is not None or not any(x.op in ("mu", "muout", "opq", "unk", "hphi") for x in walk(rest))) and not mentions(rest, self.pos):
                    wrong = "the %s is compared with %s" % (what, show(rest, 4)[:120])
            if not good and not wrong:
                cs = [c for c in conjuncts(e.guard) if any(limit(x) for x in walk(c))]
                lims = [x for c in cs for x in walk(c) if limit(x) == (fld, ix)]
                if cs and lims and not any(x.op in ("mu", "muout", "opq", "unk", "hphi") and not mentions(self.pos, x) for c in cs for x in walk(c)):
                    p = mk("sel", self.pos, num(ax))
                    v = implied(and_(*cs), lt(p, lims[0]) if upper else lt(lims[0], p))
                    good = v
                    if v is False or v is None and self.beside(cs):
                        wrong = "it need not lie inside the %s" % what
            if good:
                ctx.hold("volume", e.where, "inside the %s" % what)
            elif wrong:
                ctx.bad("volume", e.where, "a particle is added although " + wrong)
            elif any(limit(x) == (fld, ix) for x in walk(e.guard)) or any(
                    x.op == "call" and x.args[0] not in OP + ("sort_candidates_by_freq",) and mentions(x, self.pos) and x.args[0].split(".")[-1] != "pos3d_in_bounds" for x in walk(e.guard)):
                ctx.unk("volume", e.where, "%s is tested in a way not recognised" % what)
            else:
                ctx.bad("volume", e.where, "a particle is added without a test of the %s" % what)


def leaves(c):
    """terms compared in a condition"""
    if c.op in ("not", "or", "and"):
        return [x for k in kids(c) for x in leaves(k)]
    if c.op in ("le0", "lt0", "eq0"):
        return [a for m in tm.topoly(c.args[0]) for a, e in m]
    return [c]


def stripped(c, asc):
    """the condition without what is computed from the assessed coordinates"""
    return tm.subst(c, {x: mk("sym", "#pos") for x in walk(c) if x.op == "call" and x.args[0] == "point_position"})


def hidden(g, n):
    return any(x.op in ("mu", "muout") and isinstance(x.args[1], str) and any(k in x.args[1] for k in ("quali", "count", "num", "valid")) for c in conjuncts(g) for x in value_atoms(c))


def alternatives(t, depth=0):
    if t.op == "phi" and depth < 4:
        return alternatives(t.args[1], depth + 1) + alternatives(t.args[2], depth + 1)
    for x in walk(t):
        if x.op == "phi" and depth < 4:
            return [z for c in (x.args[0], not_(x.args[0])) for z in alternatives(tm.deep_assume(t, c), depth + 1)]
    return [t]


OPQ = ("point_to_pixel", "dist_to_flat", "pixel_to_metric", "candsearch_in_pix_rest")


def assess(ctx):
    f = ctx.func("track", ASSESS)
    if f is None or len(f.params) != 3 or any(ctx.func(m, o) is None for m, o in zip(("track", "trafo", "trafo", "track"), OPQ)):
        return ctx.unk("assess", ASSESS, "not found")
    g = ctx.func("track", OPQ[3])
    eff = {OPQ[3]: (g.params[8],) if len(g.params) == 10 else ()}
    for n in range(1, 5):
        sets = (("%s.cpar.num_cams" % f.params[2], num(n)),)
        r = ctx.run("track", ASSESS, opaque=OPQ, sets=sets, unroll=8, effects=eff, key=("a", n))
        if r is None:
            return
        a = [mk("sym", p) for p in f.params]
        sp = ctx.spec("s_assess", dict(zip(("pos", "frm", "run", "n"), a + [num(n)])), types=dict(zip(f.params, (None, None, None))), opaque=OPQ, unroll=8, effects=eff, sets=sets)
        got, w = r.ret(), sp.ret()
        try:
            gs = [r.elem(got, 0)] + [r.elem(got, 1, c, k) for c in range(n) for k in range(2)] + [r.elem(got, 2, c, 0) for c in range(n)]
            ws = [sp.elem(w, 0)] + [sp.elem(w, 1, i) for i in range(2 * n)] + [sp.elem(w, 2, c) for c in range(n)]
        except (Undecided, TooBig, IndexError):
            ctx.unk("assess", where(f), "result not recognised")
            continue
        # detections have coordinates
        pre = and_(*[not_(c) for t in gs + ws for c in walk(t) if c.op == "eq0" and {fieldname(m[0][0]) if len(m) == 1 else "" for m in tm.topoly(c.args[0]) if m} in ({"x"}, {"y"})])
        names = ["number of cameras"] + ["%s coordinate of camera %d" % (k, c) for c in range(n) for k in "xy"] + ["detection of camera %d" % c for c in range(n)]
        for nm, x, y in zip(names, gs, ws):
            for cs in conjuncts(pre):
                x, y = tm.deep_assume(x, cs), tm.deep_assume(y, cs)
            ks = []
            for z in list(walk(x)) + list(walk(y)):
                if z.op == "phi":
                    for c in conjuncts(z.args[0]):
                        if c.op in ("le0", "lt0") and any(w_.op == "call" and w_.args[0] == OPQ[3] for w_ in walk(c)) and c not in ks and not_(c) not in ks:
                            ks.append(c)
            for c in ([ks[0], not_(ks[0])] if len(ks) == 1 else [TRUE]):
                ctx.same("assess", where(f), tm.deep_assume(x, c), tm.deep_assume(y, c), "%s found around a place (%d cameras)" % (nm, n), c, soft=OPQ)


def best_so_far(ctx, tag, r, e, d2):
    """the accepting event e compares the squared distance d2 with that of the nearest so far, which it updates"""
    best = None
    for c in conjuncts(e.guard):
        if c.op in ("lt0", "le0"):
            for m in [k[0][0] for k in tm.topoly(c.args[0]) if len(k) == 1 and k[0][0].op == "mu"]:
                k = coeff(c.args[0], m)
                if k is not None and k[0] < 0:
                    best = (m, mul(num(tm._q(-1, k[0])), k[1]))
                elif k is not None and isinstance(m.args[1], str) and e.loops:
                    d = mul(num(tm._q(-1, k[0])), k[1])
                    if (cmp(d, d2) or cmp(mul(d, d), d2)) and any(x.d["name"] == m.args[1] and x.loops and cmp(x.d["val"], d) for x in r.ev("assign")):
                        return ctx.bad(tag, e.where, "a detection farther than the one chosen before is preferred")
    if best is None:
        for c in conjuncts(e.guard):
            if c.op in ("lt0", "le0"):
                lo = tm.topoly(c.args[0]).get((), 0)
                d = mul(num(1 / abs(tm._q(1, 1) * list(k for m, k in tm.topoly(c.args[0]).items() if m)[0])), sub(c.args[0], num(lo)))
                if lo and (cmp(d, d2) or cmp(mul(d, d), d2)):
                    ctx.bad(tag, e.where, "the distance is compared with a constant and not with that of the nearest detection so far")
                    best = ()
                    break
        if best == ():
            return
    if best is None or not isinstance(best[0].args[1], str):
        ctx.unk(tag, e.where, "comparison with the nearest detection so far not recognised")
        return
    m, d = best
    ok = [cmp(d, d2), cmp(mul(d, d), d2)]
    (ctx.hold if True in ok else ctx.bad if ok == [False, False] else ctx.unk)(tag, e.where, "detections are compared by their distance to the place")
    es = [x for x in r.ev("assign") if x.d["name"] == m.args[1] and x.loops and e.loops and len(x.loops) == len(e.loops)]
    if not es:
        ctx.bad(tag, e.where, "the distance of the nearest detection so far is not kept") if [x for x in r.ev("assign") if x.d["name"] == m.args[1]] else \
            ctx.unk(tag, e.where, "distance of the nearest detection so far not recognised")
    for x in es:
        v = cmp(x.d["val"], d)
        (ctx.hold if v else ctx.bad if v is False else ctx.unk)(tag, x.where, "the distance kept is that of the detection taken")
        for c in conjuncts(e.guard):
            if not mentions(c, e.loops[-1].idx):
                continue
            v = implied(x.guard, c)
            (ctx.hold if v else ctx.bad if v is False else ctx.unk)(tag, x.where, "the distance is kept only for a detection that is taken")


def nearest(ctx):
    f = ctx.func("track", OPQ[3])
    if f is None or len(f.params) != 10:
        return ctx.unk("search", OPQ[3], "not found")
    r = ctx.run("track", OPQ[3])
    if r is None:
        return
    p = dict(zip(("next", "n", "cx", "cy", "dl", "dr", "du", "dd", "p", "cpar"), [mk("sym", x) for x in f.params]))
    un = marker(ctx, "TR_UNUSED")
    n = 0
    for e in r.ev("store"):
        if e.d["base"] is not p["p"] or e.d["key"] is not ZERO or e.d["val"].op == "num":
            continue
        n += 1
        j = e.d["val"]
        t = mk("sel", p["next"], j)
        x, y, tn = [mk("sel", t, string(k)) for k in ("x", "y", "tnr")]
        need = [("within the window on the left", lt(sub(p["cx"], p["dl"]), x)), ("within the window on the right", lt(x, add(p["cx"], p["dr"]))),
                ("within the window above", lt(sub(p["cy"], p["du"]), y)), ("within the window below", lt(y, add(p["cy"], p["dd"])))]
        if un is not None:
            need.insert(0, ("not used by another particle", tm.eq(tn, un)))
        g = expand(e.guard)
        for what, lit in need:
            v = implied(g, lit)
            if v is None and what[:3] == "not" and not mentions(e.guard, tn):
                v = False
            (ctx.hold if v else ctx.bad if v is False else ctx.unk)("search", e.where, "a detection is taken only if it is %s" % what)
        best_so_far(ctx, "search", r, e, add(mul(sub(p["cx"], x), sub(p["cx"], x)), mul(sub(p["cy"], y), sub(p["cy"], y))))
    if not n:
        ctx.unk("search", where(f), "choice of a detection not recognised")


def expand(g):
    """bounds by the larger or smaller of two values, split"""
    out = list(conjuncts(g))
    for c in out[:]:
        if c.op in ("lt0", "le0"):
            for m, k in tm.topoly(c.args[0]).items():
                if len(m) == 1 and m[0][1] == 1 and (m[0][0].op == "max" and k > 0 or m[0][0].op == "min" and k < 0):
                    rest = coeff(c.args[0], m[0][0])
                    if rest is not None:
                        out += [mk(c.op, add(mul(num(k), a), rest[1])) for a in m[0][0].args]
    return and_(*out)


def add_particle(ctx):
    f = ctx.func("track", ADD)
    if f is None or len(f.params) != 3:
        return ctx.unk("particle", ADD, "not found")
    F, P, C = [mk("sym", x) for x in f.params]
    fld = lambda b, *ks: fld(mk("sel", b, string(ks[0]) if isinstance(ks[0], str) else ks[0]), *ks[1:]) if ks else b
    n = fld(F, "num_parts")
    none = {k: marker(ctx, v) for k, v in (("prev_frame", "PREV_NONE"), ("next_frame", "NEXT_NONE"), ("p", "CORRES_NONE"), ("c", "TR_UNUSED"))}
    if None in none.values():
        return ctx.unk("particle", where(f), "markers not found")
    pos = vec("P", 3)
    for cams in range(1, 5):
        inds = [[mk("sel", mk("sel", C, num(c)), num(k)) for k in range(4)] for c in range(cams)]
        room = lt(n, length(fld(F, "path_info")))
        # distinct targets of the cameras
        for case in (room, not_(room)):
            r = ctx.run("track", ADD, {f.params[1]: pos}, sets=(("%s.num_cams" % f.params[0], num(cams)),), unroll=8, assume=case, key=("p", cams, case is room))
            if r is None:
                return
            tell = "%d cameras, %s" % (cams, "room left" if case is room else "lists grow")
            after = lambda t: under(r.ip.snap(r.st, t), case)
            rd = lambda b, *ks: r.field(b, *ks)
            try:
                ctx.same("count", where(f), read(r, case, F, "num_parts"), add(n, ONE), "the number of particles grows by one (%s)" % tell, case)
                pi = None
                if case is room:
                    pi = fld(F, "path_info", n)
                else:
                    ap = [e for e in r.ev("mutate") if e.d.get("how") == "append" and fieldname(e.d["base"]) == "path_info" and e.d["val"].op == "obj"]
                    if len(ap) == 1:
                        pi = ap[0].d["val"]
                if pi is None:
                    ctx.unk("particle", where(f), "the added particle was not recognised (%s)" % tell)
                else:
                    for i in range(3):
                        ctx.same("particle", where(f), read(r, case, pi, "x", i), elems(pos)[i], "component %s of its position (%s)" % (AX[i], tell), case)
                    for k in ("prev_frame", "next_frame"):
                        ctx.same("particle", where(f), read(r, case, pi, k), none[k], "it starts without %s (%s)" % (k, tell), case)
                co = r.ip.getitem(r.st, r.field(F, "correspond"), n, None)
                co = under(co, case)
                for c in range(cams):
                    j = inds[c][0]
                    seen = ne(j, none["c"])
                    for cc in (seen, not_(seen)):
                        u = and_(case, cc)
                        want = j if cc is seen else none["p"]
                        ctx.same("refers", where(f), under(read(r, case, co, "p", c), cc), want, "camera %d refers to %s (%s)" % (
                            c, "its detection" if cc is seen else "none", tell), u)
                    t = mk("sel", mk("sel", fld(F, "targets"), num(c)), j)
                    ctx.same("marked", where(f), under(read(r, case, t, "tnr"), seen), n, "the detection of camera %d is marked as belonging to the particle (%s)" % (c, tell), and_(case, seen))
            except (Undecided, TooBig):
                ctx.unk("particle", where(f), "result not recognised (%s)" % tell)
            # nothing else is marked
            for e in r.ev("store"):
                if e.d["key"].op == "str" and e.d["key"].args[0] == "tnr":
                    b = e.d["base"]
                    ok = None
                    for c in range(cams):
                        if b is mk("sel", mk("sel", fld(F, "targets"), num(c)), inds[c][0]):
                            ok = implied(e.guard, ne(inds[c][0], none["c"]))
                            if ok is None and not mentions(e.guard, inds[c][0]):
                                ok = False
                    (ctx.hold if ok else ctx.bad if ok is False else ctx.unk)("marked", e.where, "only detections that were found are marked (%s)" % tell)


def under(t, c):
    for x in conjuncts(c):
        t = tm.deep_assume(t, x)
    return t


def read(r, case, t, *ks):
    for k in ks:
        if isinstance(k, str):
            t = r.field(t, k)
        else:
            t = r.ip.getitem(r.st, t, num(k), None)
        t = under(t, case)
    if t.op == "obj":
        t = r.ip.snap(r.st, t)
    return under(t, case)
