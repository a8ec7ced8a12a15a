"""C13: epipolar candidates."""
import ast

from ..rulekit import *

TECHNIQUE = ("guard analysis: the path condition under which a candidate is recorded is extracted from the value graph and must entail each acceptance "
             "condition, and must be entailed by them; recorded fields are compared with reference formulas; data flow of the pairwise search by term")
S = lambda n: mk("sym", n)
FIELDS = ("pnr", "tol", "corr")


def check(ctx):
    ctx.rule("The path condition of every event that records a candidate must entail: distance to the line below the tolerance, position within the "
             "tolerance of the ends of the segment on both axes, similarity of pixel count, width and height not below and of the grey values above "
             "their own thresholds, table not full. Each of its conditions must in turn follow from these, from the overlap of segment and sensor and "
             "from the range searched. Fields recorded, in find_candidate and in match_pairs, are compared term by term.")
    search(ctx)
    pairs(ctx)
    start(ctx)


def search(ctx):
    f = ctx.func("find_candidate", "find_candidate")
    if f is None or len(f.params) != 14:
        return ctx.unk("anchor", "find_candidate", "not found")
    p = dict(zip(("crd", "pix", "num", "xa", "ya", "xb", "yb", "n", "nx", "ny", "sumg", "vpar", "cpar", "cal"), f.params))
    P = {k: S(v) for k, v in p.items()}
    fields = dtype_fields(ctx.pkg, "Candidate_dtype") or list(FIELDS)
    for dx in (True, False):
        for dy in (True, False):
            asm = and_(lt(P["xa"], P["xb"]) if dx else lt(P["xb"], P["xa"]), lt(P["ya"], P["yb"]) if dy else lt(P["yb"], P["ya"]),
                       *[lt(ZERO, P[k]) for k in ("n", "nx", "ny", "sumg")])
            r = ctx.run("find_candidate", "find_candidate", opaque=("dist_to_flat", "correct_brown_affine", "find_start_point"), assume=asm)
            if r is None:
                return
            lo_x, hi_x = (P["xa"], P["xb"]) if dx else (P["xb"], P["xa"])
            lo_y, hi_y = (P["ya"], P["yb"]) if dy else (P["yb"], P["ya"])
            n = 0
            for e in r.ev("mutate", "store"):
                v = e.d.get("val")
                if v is None or e.kind == "mutate" and e.d.get("how") != "append":
                    continue
                rec = record(r, v, fields)
                if rec is None or not all(k in rec for k in FIELDS):
                    continue
                rec = {k: r.ip.snap(r.st, x) for k, x in rec.items()}
                n += 1
                accept(ctx, r, e, rec, P, asm, lo_x, hi_x, lo_y, hi_y)
                ends(ctx, e, rec["pnr"], P)
            if not n:
                ctx.unk("accept", where(f), "no recorded candidate recognised")
            exits(ctx, r, P, hi_x, asm)
            for e in calls_of(r, "find_start_point"):
                a = e.d["args"]
                for k, w in (("crd", P["crd"]), ("num", P["num"]), ("xa", lo_x), ("vpar", P["vpar"])):
                    if k in a:
                        ctx.same("start", e.where, a[k], w, "the first detection is searched with the right %s" % k)


def ends(ctx, e, j, P):
    """the detections searched run from the start point to the last one"""
    ix = {x for x in walk(j) if x.op == "idx"}
    if len(ix) != 1:
        return
    i = ix.pop()
    lo, hi = i.args[1], i.args[2]
    if hi.op == "inf":
        return
    last = sub(subst(j, {i: sub(hi, ONE)}), sub(P["num"], ONE))
    if is_int_const(last):
        if last.args[0] < 0:
            ctx.bad("range", e.where, "the last detections of the image are never searched (the search ends %d before the last)" % -last.args[0])
        elif last is ZERO:
            ctx.hold("range", e.where, "the search runs to the last detection")
    first = subst(j, {i: lo})
    st = [x for x in walk(first) if x.op == "call" and x.args[0].split(".")[-1] == "find_start_point"]
    if len(st) == 1:
        d = sub(first, st[0])
        if is_int_const(d) and d.args[0] > 0:
            ctx.bad("range", e.where, "the search begins after the start point found")
        elif d is ZERO:
            ctx.hold("range", e.where, "the search begins at the start point found")


def fld(t, name):
    return mk("sel", t, string(name))


def field(r, t, name):
    return r.field(t, name)


def accept(ctx, r, e, rec, P, asm, lo_x, hi_x, lo_y, hi_y):
    j = rec["pnr"]
    c = r.elem(P["crd"], j)
    if not any(x is c for x in walk(e.guard)):
        # the number recorded is not the index of the detection that was tested
        tested = {x for x in walk(e.guard) if x.op == "sel" and x.args[0] is P["crd"]}
        if len(tested) == 1:
            return ctx.bad("number", e.where, "the candidate is recorded as number %s, but the detection tested is %s" % (show(j, 4), show(tested.pop(), 4)))
        return ctx.unk("accept", e.where, "number of the candidate not recognised")
    ctx.hold("number", e.where, "the candidate's number is the index of the tested detection")
    x, y = field(r, c, "x"), field(r, c, "y")
    t = r.elem(P["pix"], field(r, c, "pnr"))
    ts = {z.args[0] for z in walk(e.guard) if z.op == "sel" and z.args[0].op == "sel" and z.args[0].args[0] is P["pix"]}
    if ts and t not in ts and any(y.op in ("slice", "mu", "muout", "unk", "comp", "fn") for z in ts for y in walk(z)):
        return ctx.unk("accept", e.where, "detection tested not recognised")
    eps = field(r, P["vpar"], "eps0")
    d = ctx.spec("s_band", {"x": x, "y": y, **{k: P[k] for k in ("xa", "ya", "xb", "yb")}}).ret()
    if ctx.same("distance", e.where, rec["tol"], d, "the distance recorded is that of the detection to the line", asm):
        d = rec["tol"]
    q = {k: field(r, t, k) for k in ("n", "nx", "ny", "sumg")}
    corr = ctx.spec("s_score", dict(n=P["n"], nx=P["nx"], ny=P["ny"], sumg=P["sumg"], pn=q["n"], pnx=q["nx"], pny=q["ny"], psumg=q["sumg"])).ret()
    ctx.same("score", e.where, rec["corr"], corr, "the score recorded combines the four similarities of this pair", asm)
    rat = {k: ctx.spec("s_ratio", {"a": P[k], "b": q[k]}).ret() for k in q}
    cond = {
        "left end": lt(sub(lo_x, eps), x), "right end": lt(x, add(hi_x, eps)), "lower end": lt(sub(lo_y, eps), y), "upper end": lt(y, add(hi_y, eps)),
        "tolerance": lt(d, eps), "pixel count": ge(rat["n"], field(r, P["vpar"], "cn")), "width": ge(rat["nx"], field(r, P["vpar"], "cnx")),
        "height": ge(rat["ny"], field(r, P["vpar"], "cny")), "grey values": gt(rat["sumg"], field(r, P["vpar"], "csumg")),
    }
    spec = and_(asm, *cond.values())
    pos = [q[k] for k in q] + [P[k] for k in ("n", "nx", "ny", "sumg")] + [eps]
    base = and_(asm, *[ge(x, ZERO) for x in q.values()], gt(eps, ZERO))
    for k, lit in cond.items():
        edge = ne(lit.args[0], ZERO) if lit.op in ("lt0", "le0") else TRUE  # a value exactly on the limit is not judged
        v = implied(and_(base, edge, e.guard), lit, positive=pos)
        if v:
            ctx.hold("band", e.where, "a recorded candidate satisfies the condition on the %s" % k)
        elif v is False:
            ctx.bad("band", e.where, "a candidate can be recorded that fails the condition on the %s: %s" % (k, show(lit, 5)))
        else:
            ctx.unk("band", e.where, "condition on the %s" % k)
    # table
    lens = [x for x in walk(e.guard) if x.op == "len"]
    full = [x for x in conjuncts(e.guard) if any(y in lens or y.op == "mu" for y in walk(x))]
    cap = capacity(ctx)
    if e.kind == "mutate" and cap is not None:
        ok = [x for x in full for y in lens if implies(x, lt(y, num(cap)), 3)]
        if ok:
            ctx.hold("table", e.where, "no more candidates than the table holds")
        elif not full or all(implied(x, lt(y, num(cap))) is False for x in full for y in lens):
            ctx.bad("table", e.where, "more candidates can be recorded than the table holds")
        else:
            ctx.unk("table", e.where, "table limit")
    # nothing else keeps a detection out
    flat = sensor(ctx, r, P, lo_x, hi_x, lo_y, hi_y)
    sens = and_(spec, *(flat or []), *[ge(x, ZERO) for x in q.values()], gt(eps, ZERO))
    own = {c, P["xa"], P["ya"], P["xb"], P["yb"], P["n"], P["nx"], P["ny"], P["sumg"]}
    lits = [x for x in conjuncts(e.guard) if x is not TRUE and not pit.opaque(x) and not any(
        y.op == "call" and (flat is None or y.args[0] == "find_start_point") for y in outside(x)) and any(y in own for y in outside(x))]
    th = [field(r, P["vpar"], k) for k in ("cn", "cnx", "cny", "csumg")]
    lims = [(y, s) for y, s in zip(flat or [], (-1, 1, -1, 1))]
    envs = []
    for i in range(120):
        try:
            env = inside(i, P, x, y, q, th, eps, lims, lo_x, hi_x, lo_y, hi_y)
            if pit._b(sens, env):
                envs.append(env)
        except (pit.Skip, OverflowError, ZeroDivisionError, TypeError, RecursionError):
            continue
    for lit in lits:
        v, n = True, 0
        for env in envs:
            try:
                n += 1
                if not pit._b(lit, env):
                    v = False
                    break
            except (pit.Skip, OverflowError, ZeroDivisionError, TypeError, RecursionError):
                n -= 1
        if v is False:
            ctx.bad("complete", e.where, "a detection inside the band is left out by the condition %s" % show(lit, 5)[:200])
        elif n:
            ctx.hold("complete", e.where, "the condition %s keeps no detection of the band out" % show(lit, 3)[:80])
        else:
            ctx.unk("complete", e.where, "condition %s" % show(lit, 3)[:80])


def outside(t):
    """the parts of a term outside the definitions of its indices"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        if x.op != "idx":
            todo.extend(kids(x))
    return out


def inside(seed, P, x, y, q, th, eps, lims, lo_x, hi_x, lo_y, hi_y):
    """a detection near the line, well inside the band"""
    env = pit.Env(900 + seed)
    rnd = env.rnd

    def put(t, v):
        env.vals[pit._ckey(t, env)] = F(v)
    u = lambda a, b: F(rnd.randint(int(a * 1000), int(b * 1000)), 1000)
    e = u(0.05, 0.6)
    put(eps, e)
    ax, ay = u(-3, 3), u(-3, 3)
    bx, by = ax + u(0.2, 4), ay + u(0.2, 4)
    put(lo_x, ax), put(hi_x, bx), put(lo_y, ay), put(hi_y, by)
    xa, ya = (ax if lo_x is P["xa"] else bx), (ay if lo_y is P["ya"] else by)
    xb, yb = (bx if lo_x is P["xa"] else ax), (by if lo_y is P["ya"] else ay)
    s = u(-0.05, 1.05) if rnd.random() < 0.7 else rnd.choice([u(-0.02, 0.02), u(0.98, 1.02)])
    px, py = xa + s * (xb - xa), ya + s * (yb - ya)
    w = u(-1, 1) * e
    put(x, px + w * rnd.choice([0, 1, F(1, 2)])), put(y, py + w * rnd.choice([0, 1, F(1, 2)]))
    for k in q:
        a = rnd.randint(1, 60)
        put(q[k], a)
        put(P[k], max(1, a + rnd.randint(-5, 5)) if rnd.random() < 0.7 else rnd.randint(1, 60))
    for t in th:
        put(t, u(0.01, 0.6))
    for lit, sgn in lims:
        for t in walk(lit):
            if t.op == "sel" and t.args[0].op == "call":
                end = {k: v for k, v in ((lo_x, ax), (hi_x, bx), (lo_y, ay), (hi_y, by))}
                z = next((v for k, v in end.items() if any(y is k for y in walk(lit))), F(0))
                put(t, sgn * 50 if rnd.random() < 0.5 else z + sgn * u(0.01, 2))
    return env


def sensor(ctx, r, P, lo_x, hi_x, lo_y, hi_y):
    """segment and sensor overlap: limits taken from the flat positions of the sensor's corners"""
    calls = {x for e in r.events for x in walk(e.guard) if x.op == "call" and x.args[0] in ("dist_to_flat", "correct_brown_affine")}
    if not calls:
        return None
    half = lambda a, b: mul(num(F(1, 2)), mul(field(r, P["cpar"], a), field(r, P["cpar"], b)))
    hx, hy = half("pix_x", "imx"), half("pix_y", "imy")
    lo = hi = None
    for x in calls:
        a = [y for y in x.args[1:] if isinstance(y, T)]
        if len(a) >= 2 and a[0] is neg(hx) and a[1] is neg(hy):
            lo = x
        if len(a) >= 2 and a[0] is hx and a[1] is hy:
            hi = x
    if lo is None or hi is None or any(x not in (lo, hi) for x in calls):
        return None
    s = lambda c, i: r.elem(c, i)
    return [lt(s(lo, 0), hi_x), lt(lo_x, s(hi, 0)), lt(s(lo, 1), hi_y), lt(lo_y, s(hi, 1))]


def capacity(ctx):
    for m in ctx.pkg.mods.values():
        v = m.consts.get("MAXCAND")
        if isinstance(v, ast.Constant) and isinstance(v.value, int):
            return v.value
    return None


def exits(ctx, r, P, hi_x, asm):
    """the search may end before the last detection only beyond the segment or when the table is full"""
    eps = field(r, P["vpar"], "eps0")
    for e in r.ev("return", "break"):
        cs = {x for x in walk(e.guard) if x.op == "sel" and x.args[0] is P["crd"] and x.args[1].op != "str"}
        if len(cs) != 1 or not e.loops or e.func is not r.func:
            continue
        c = cs.pop()
        if c.args[1].op in ("mu", "muout", "unk"):
            continue
        if any(x.op in ("len", "mu") for x in walk(e.guard)):
            continue
        lit = ge(field(r, c, "x"), add(hi_x, eps))
        v = implied(and_(asm, e.guard), lit, positive=[eps])
        if v is False:
            ctx.bad("exit", e.where, "the search ends before a detection beyond the segment is reached")
        elif v:
            ctx.hold("exit", e.where, "the search ends only beyond the segment")
        else:
            ctx.unk("exit", e.where, "end of the search")


def calls_of(r, name):
    return [e for e in r.ev("call") if e.d["name"] == name]


def pairs(ctx):
    f = ctx.func("correspondences", "match_pairs")
    if f is None or len(f.params) != 6:
        return ctx.unk("anchor", "match_pairs", "not found")
    r = ctx.run("correspondences", "match_pairs", opaque=("epi_mm", "find_candidate"))
    if r is None:
        return
    C, D, FR, VP, CP, CA = [S(x) for x in f.params]
    fc = {x for e in r.events for v in e.d.values() if isinstance(v, T) for x in walk(v) if x.op == "call" and x.args[0] == "find_candidate"}
    for e in calls_of(r, "find_candidate"):
        a = e.d["args"]
        cal = a.get("cal")
        if cal is None or cal.op != "sel" or cal.args[0] is not CA:
            ctx.unk("search", e.where, "camera searched not recognised")
            continue
        i2 = cal.args[1]
        ep = {x for x in walk(a.get("xa", ZERO)) if x.op == "call" and x.args[0] == "epi_mm"}
        if len(ep) != 1:
            ctx.unk("search", e.where, "origin of the epipolar line not recognised")
            continue
        ep = ep.pop()
        cams = {x.args[1] for x in walk(ep) if x.op == "sel" and x.args[0] is CA} - {i2}
        pts = {x for x in walk(ep) if x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[0] is D}
        if len(cams) != 1 or len(pts) != 1:
            ctx.unk("search", e.where, "origin of the epipolar line not recognised")
            continue
        i1, pt = cams.pop(), pts.pop()
        tg = r.elem(r.elem(r.field(FR, "targets"), i1), r.field(pt, "pnr"))
        want = {"crd": r.elem(D, i2), "pix": r.elem(r.field(FR, "targets"), i2), "num": r.elem(r.field(FR, "num_targets"), i2),
                "n": r.field(tg, "n"), "nx": r.field(tg, "nx"), "ny": r.field(tg, "ny"), "sumg": r.field(tg, "sumg"), "vpar": VP, "cpar": CP}
        want.update({k: r.elem(ep, i) for i, k in enumerate(("xa", "ya", "xb", "yb"))})
        for k, w in want.items():
            if k in a:
                ctx.same("search", e.where, a[k], w, "the search is made with the right %s" % k)
        for g in calls_of(r, "epi_mm"):
            b = g.d["args"]
            for k, w in (("xl", r.field(pt, "x")), ("yl", r.field(pt, "y")), ("cal1", r.elem(CA, i1)), ("cal2", cal), ("mmp", r.field(CP, "mm")), ("vpar", VP)):
                if k in b:
                    ctx.same("line", g.where, b[k], w, "the epipolar line is computed from the right %s" % k)
        # stores
        call = next((x for x in fc if any(y is ep for y in walk(x))), None)
        if call is None:
            continue
        for s in r.ev("store"):
            b = s.d["base"]
            nm = fieldname(b)
            key, val = s.d["key"], s.d["val"]
            row = b.args[0] if b.op == "sel" and nm in ("p2", "corr", "dist") else b
            if root(b) is not C:
                continue
            if nm in ("p2", "corr", "dist"):
                w = r.field(r.elem(call, key), {"p2": "pnr", "corr": "corr", "dist": "tol"}[nm])
                if not any(x is call for x in walk(val)):
                    ctx.unk("record", s.where, "recorded %s not recognised" % nm)
                    continue
                ctx.same("record", s.where, val, w, "%s of the candidate in its own place" % nm)
                cap = capacity(ctx)
                if cap is not None:
                    v = implied(s.guard, lt(key, num(cap)))
                    if v is None:
                        for c in conjuncts(s.guard):
                            for y in [y for y in walk(c) if y.op == "min" and num(cap) in y.args]:
                                if implies(tm.subst(c, {y: num(cap)}), lt(key, num(cap)), 3):
                                    v = True
                    ctx.hold("table", s.where, "within the table") if v else ctx.bad(
                        "table", s.where, "more candidates are recorded than the table holds") if v is False else ctx.unk("table", s.where, "table limit")
            elif key.op == "str" and key.args[0] == "n":
                cap = capacity(ctx)
                w = smin(mk("len", call), num(cap)) if cap is not None else None
                if w is not None and any(x is call for x in walk(val)):
                    ctx.same("record", s.where, val, w, "number of candidates recorded")
            elif key.op == "str" and key.args[0] == "p1":
                ctx.same("record", s.where, val, pt.args[1], "number of the detection itself")
            else:
                continue
            want_row = C
            for i in (i1, i2, pt.args[1]):
                want_row = mk("sel", want_row, i)
            ctx.same("row", s.where, row, want_row, "candidates are kept under the pair of cameras and the detection they belong to")


def start(ctx):
    """binary search of the first detection: towards larger x while the detection lies left of the band"""
    f = ctx.func("find_candidate", "find_start_point")
    if f is None or len(f.params) != 4:
        return
    r = ctx.run("find_candidate", "find_start_point", olds=True)
    if r is None:
        return
    num_, xa, eps = S(f.params[1]), S(f.params[2]), r.field(S(f.params[3]), "eps0")
    left = sub(xa, eps)
    steps = []
    for e in r.ev("assign"):
        v, o = e.d.get("val"), e.d.get("old")
        if not isinstance(v, T) or not isinstance(o, T) or o.op != "mu" or v.op != "poly":
            continue
        step = sub(v, o)
        at = {x for x in walk(e.guard) if x.op == "sel" and x.args[1] is o}
        if len(at) != 1:
            continue
        x = at.pop()
        if x.args[0] is S(f.params[0]):
            x = r.field(x, "x")
        if step.op == "mu":
            want = lt(x, left)
        elif neg(step).op == "mu":
            want = ge(x, left)
        else:
            continue
        steps.append(step)
        close = ne(x, left)
        k = implied(and_(e.guard, close), want)
        m = "the search of the first detection goes %s when the detection lies %s of the band" % (("right", "left") if step.op == "mu" else ("left", "right"))
        if k:
            ctx.hold("start", e.where, m)
        elif k is False:
            ctx.bad("start", e.where, m + ": taken under %s" % show(e.guard, 4)[:120])
        else:
            ctx.unk("start", e.where, m)
    init = {e.d["val"] for e in r.ev("assign") if isinstance(e.d.get("val"), T) and e.d.get("old") is None and e.d["val"].op == "fn"}
    if len(steps) == 2 and init == {fn("floordiv", num_, num(2)), fn("floordiv", num_, num(4))}:
        v = r.ret()
        back = [topoly(x).get((), 0) for x in ([v] if v.op != "max" else v.args) if x.op == "poly" and any(y.op == "muout" for y in walk(x))]
        if v.op == "muout" or v.op == "max" and any(x.op == "muout" for x in v.args):
            back = [0]
        if len(back) == 1:
            if back[0] > -11:
                ctx.bad("start", where(f), "the search starts only %d detections before the position found by halving, which is up to 11 too high "
                        "for 2047 detections: detections of the band are left out" % -back[0])
            else:
                ctx.hold("start", where(f), "the search starts %d detections before the position found by halving" % -back[0])
