"""C14: correspondences never share a detection and agree pairwise."""
from ..rulekit import *

TECHNIQUE = ("guard analysis of the accepting stores: from the path condition of every accepted set the pairwise membership facts are derived; score, usage "
             "marks, order of the passes and point numbering are compared with reference terms; dataflow over opaque matching routines")
S = lambda n: mk("sym", n)
MODULE = "correspondences"


def check(ctx):
    ctx.rule("For every store that accepts a set of detections and every pair of its members, the path condition must contain a test that one member is in "
             "the candidate list of the other; the stored score is the sum of the pair scores over the sum of the pair distances of exactly these pairs "
             "and exceeds the limit; a set is taken only if none of its members is marked in its own camera, takes all its marks and one place; passes "
             "run from four to two cameras; counts, offsets and point numbers follow the sets taken.")
    for q, k in (("four_camera_matching", 4), ("three_camera_matching", 3), ("consistent_pair_matching", 2)):
        matching(ctx, q, k)
    take(ctx)
    for n in (4, 3, 2):
        passes(ctx, n)
    for n in (4, 3, 2):
        results(ctx, n)


def under(t, b):
    while t.op in ("sel", "row"):
        if t is b:
            return True
        t = t.args[0]
    return t is b


def chain(t, base):
    """indices of an element of base, outermost first, or None"""
    out = []
    while t is not base:
        if t.op not in ("sel", "row"):
            return None
        out.append(t.args[1])
        t = t.args[0]
    return out[::-1]


def rowof(t, C):
    """(cam a, cam b, index, field, position) of an entry of the candidate tables"""
    c = chain(t, C)
    if c is None or len(c) not in (4, 5) or c[3].op != "str":
        return None
    return c[0], c[1], c[2], c[3].args[0], c[4] if len(c) == 5 else None


def matching(ctx, q, size):
    f = ctx.func(MODULE, q)
    if f is None or len(f.params) < 5:
        return ctx.unk("anchor", q, "not found")
    r = ctx.run(MODULE, q)
    if r is None:
        return
    names = {p: S(p) for p in f.params}
    C = S(f.params[0])
    scratch = next((names[p] for p in f.params if "scratch" in p and "size" not in p), None)
    acc = next((names[p] for p in f.params if "accept" in p or "corrmin" in p), None)
    groups = {}
    corrs, fills = {}, []
    for e in r.ev("store"):
        v, b, k = e.d["val"], e.d["base"], e.d["key"]
        if k.op == "str" and k.args[0] == "corr" and root(b) is scratch:
            corrs.setdefault(e.guard, []).append(e)
            continue
        if v.op == "seq" or v.op == "obj" and k.op == "str" and k.args[0] == "p":
            s = r.ip.snap(r.st, v)
            fills.append((e, s, v))
            continue
        ro = rowof(v, C) if isinstance(v, T) else None
        if ro is not None and ro[3] in ("p1", "p2"):
            groups.setdefault(e.guard, []).append(e)
        elif v.op == "num" and fieldname(b) == "p":
            fills.append((e, v, None))
    usage(ctx, r, f, C)
    if not groups:
        return ctx.unk("accept", where(f), "no accepted set recognised")
    for g, es in groups.items():
        mem = {}
        for e in es:
            if e.d["key"] in mem and mem[e.d["key"]] is not e.d["val"]:
                mem = None
                break
            mem[e.d["key"]] = e.d["val"]
        e = es[-1]
        if mem is None or len(mem) != size:
            ctx.unk("accept", e.where, "accepted set not recognised")
            continue
        members(ctx, r, e, g, mem, C, corrs.get(g), acc, size)
    if size < 4:
        neg_ = [e for e, s, v in fills if s.op == "num" and s.args[0] < 0]
        whole = [(e, s) for e, s, v in fills if v is not None]
        if neg_:
            ctx.hold("empty", neg_[0].where, "cameras without a detection are marked as empty")
        elif whole:
            e, s = whole[0]
            fl = [x for x in walk(s) if x.op == "fill"]
            init = fl[0].args[0] if fl else None
            y = s
            while y.op == "snap":
                y = y.args[0]
            if init is None and y.op == "seq" and len(set(elems(y))) == 1:
                init = elems(y)[0]
            if init is not None and init.op == "num" and init.args[0] >= 0:
                ctx.bad("empty", e.where, "cameras without a detection are not marked as empty: filled with %s" % show(init))
            elif init is not None and init.op == "num":
                ctx.hold("empty", e.where, "cameras without a detection are marked as empty")
            else:
                ctx.unk("empty", e.where, "cameras without a detection")
        elif fills:
            ctx.bad("empty", fills[0][0].where, "cameras without a detection are marked with %s, which is the number of a detection" % show(fills[0][1]))
        elif not fills:
            ctx.bad("empty", where(f), "%s does not mark the cameras without a detection: entries of a former set are left in place" % q)


def members(ctx, r, e, g, mem, C, corr, acc, size):
    cams = sorted(mem, key=lambda k: (k.args[0] if k.op == "num" else 0, k.id))
    # order by guard
    def before(a, b):
        if a.op == "num" and b.op == "num":
            return a.args[0] < b.args[0]
        return implies(g, lt(a, b), 3)
    import functools
    cams = sorted(cams, key=functools.cmp_to_key(lambda a, b: -1 if before(a, b) else 1 if before(b, a) else 0))
    for a, b in zip(cams, cams[1:]):
        if not before(a, b):
            return ctx.unk("pair", e.where, "order of the cameras")
    idx = {}
    for c in cams:
        ro = rowof(mem[c], C)
        idx[c] = ro[2] if ro[3] == "p1" else mem[c]
        if ro[3] == "p1" and ro[0] is not c or ro[3] == "p2" and ro[1] is not c:
            ctx.bad("camera", e.where, "the detection kept for camera %s was found in camera %s" % (show(c, 2), show(ro[0] if ro[3] == "p1" else ro[1], 2)))
            return
    ctx.hold("camera", e.where, "members are kept under the cameras they were found in")
    parts = []
    okall = True
    for i, a in enumerate(cams):
        for b in cams[i + 1:]:
            nm = "cameras %s and %s" % (show(a, 2), show(b, 2))
            row = mk("sel", mk("sel", mk("sel", C, a), b), idx[a])
            lst = mk("sel", row, string("p2"))
            m = None
            ro = rowof(mem[b], C)
            how = None
            if under(mem[b], lst) and ro[4] is not None:
                m, how = ro[4], "taken from the list"
            else:
                for c in conjuncts(g):
                    if c.op == "eq0":
                        for x in walk(c):
                            if x.op == "sel" and x.args[0] is lst and eq(x, mem[b]) is c:
                                m, how = x.args[1], "compared with the list"
                if how is None:
                    for c in conjuncts(g):
                        if not any(x is lst for x in walk(c)) or not any(x is mem[b] for x in walk(c)) or c.op == "lt0" and acc is not None and any(x is acc for x in walk(c)):
                            continue
                        if member_test(c, lst, mem[b]):
                            how = "searched in the list"
                            m = position(corr, row) if corr else None
                            if m == "several":
                                ctx.bad("score", e.where, "score and distance of %s are taken from different entries of the list" % nm)
                                return
                            if m is not None and not under_search(m):
                                if m.op in ("idx", "num"):
                                    ctx.bad("score", e.where, "the score of %s is that of entry %s, not of the entry found" % (nm, show(m, 2)))
                                    return
                                m = None
            if how is None:
                uses = [c for c in conjuncts(g) if any(x.op == "sel" and x.args[1].op == "str" and x.args[1].args[0] == "p2" and under(x, mk("sel", mk("sel", C, a), b)) for x in walk(c)) and
                        not (acc is not None and any(x is acc for x in walk(c)))]
                uses = [c for c in uses if not c.op in ("lt0", "le0")]
                other = [x for c in uses for x in walk(c) if x.op == "sel" and x.args[1].op != "str" and rowof(x, C) is not None and rowof(x, C)[0] is a and rowof(x, C)[1] is b and rowof(x, C)[3] == "p2" and
                         rowof(x, C)[4] is not None]
                okall = False
                wrong = [x for x in other if any(y is mem[b] for c in uses for y in walk(c)) and rowof(x, C)[2] is not idx[a]]
                wrong += [y for c in uses for y in searched(c) if under(y, mk("sel", mk("sel", C, a), b)) and rowof(y, C) is not None and rowof(y, C)[2] is not idx[a] and member_test(c, y, mem[b])]
                if wrong:
                    ctx.bad("pair", e.where, "the members in %s are compared with the candidates of another detection: %s" % (nm, show(wrong[0], 6)[:120]))
                elif not uses or all(c.op == "eq0" for c in uses):
                    ctx.bad("pair", e.where, "a set is accepted without a test that its members in %s are candidates of each other" % nm)
                else:
                    ctx.unk("pair", e.where, nm)
                continue
            if how == "searched in the list" and not any(x is mk("sel", row, string("n")) for c in conjuncts(g) for x in walk(c)):
                ctx.bad("entry", e.where, "the whole candidate list of %s is searched, entries that are not in use included" % nm)
                okall = False
                continue
            ctx.hold("pair", e.where, "members in %s are candidates of each other (%s)" % (nm, how))
            if m is not None and how != "searched in the list":
                lit = lt(m, mk("sel", row, string("n")))
                v = True if m is ZERO and implied(g, lit) else implied(g, lit)
                if v:
                    ctx.hold("entry", e.where, "only entries in use of the candidate list of %s" % nm)
                elif v is False:
                    ctx.bad("entry", e.where, "an entry of the candidate list of %s can be used that is not in use" % nm)
                else:
                    ctx.unk("entry", e.where, nm)
            parts.append((row, m))
    if corr and okall and all(m is not None for _, m in parts):
        num_ = den = ZERO
        for row, m in parts:
            num_ = add(num_, mk("sel", mk("sel", row, string("corr")), m))
            den = add(den, mk("sel", mk("sel", row, string("dist")), m))
        for c in corr:
            ctx.same("score", c.where, c.d["val"], div(num_, den), "the score is the sum of the pair scores over the sum of the distances of this set's pairs")
    if corr and okall:
        mine = {row for row, _ in parts}
        for c in corr:
            for x in walk(c.d["val"]):
                if x.op == "sel" and x.args[1].op == "str" and x.args[1].args[0] in ("corr", "dist") and x.args[0].op == "sel" and root(x) is C and x.args[0] not in mine and \
                        all(z.op in ("idx", "sel", "num", "poly", "sym", "str") for z in outside(x)):
                    ctx.bad("score", c.where, "the score uses an entry of another pair than those of the set: %s" % show(x, 5)[:120])
                    break
    if corr and acc is not None:
        for c in corr:
            v = implied(and_(c.guard, ne(c.d["val"], acc)), gt(c.d["val"], acc))
            if v:
                ctx.hold("limit", c.where, "sets with a score below the limit are dropped")
            elif v is False or not any(x is acc for x in walk(c.guard)):
                ctx.bad("limit", c.where, "a set with a score below the limit is kept")
            else:
                ctx.unk("limit", c.where, "score limit")


def outside(t):
    """the parts of a term outside the ranges of its indices"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        if x.op != "idx":
            todo.extend(kids(x))
    return out


def usage(ctx, r, f, C):
    """usage marks are asked for a detection of their own camera"""
    U = next((S(p) for p in f.params if "usage" in p), None)
    if U is None:
        return
    seen = set()
    for e in r.events:
        for x in walk(e.guard):
            if x in seen or not (x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[0] is U):
                continue
            seen.add(x)
            ro = rowof(x.args[1], C)
            if ro is None or ro[3] not in ("p1", "p2"):
                continue
            cam = ro[0] if ro[3] == "p1" else ro[1]
            if cam is x.args[0].args[1]:
                ctx.hold("mark", e.where, "the usage mark asked for belongs to the camera of the detection")
            elif {cam.op, x.args[0].args[1].op} <= {"idx", "num"}:
                ctx.bad("mark", e.where, "the usage mark of camera %s is asked for a detection of camera %s" % (show(x.args[0].args[1], 2), show(cam, 2)))


def searched(c):
    return {x for x in walk(c) if x.op == "sel" and x.args[1].op == "str" and x.args[1].args[0] == "p2"}


def under_search(m):
    return any(x.op == "fn" and x.args[0] in ("where", "nonzero", "flatnonzero", "argmax", "argwhere", "index") or x.op in ("call", "unk", "wit", "lastwit", "mu", "muout") for x in walk(m))


def member_test(c, lst, v):
    """the condition says that v occurs in the list"""
    t = c
    pos = True
    while t.op == "not":
        t, pos = t.args[0], not pos
    if t.op == "eq0":
        # size of the set of places == 0
        return not pos and any(x.op == "fn" and x.args[0] in ("where", "nonzero", "flatnonzero", "count_nonzero", "argwhere") or x.op in ("len", "sum") for x in walk(t))
    if t.op in ("lt0", "le0"):
        return any(x.op == "fn" and x.args[0] in ("where", "nonzero", "flatnonzero", "count_nonzero", "argwhere") or x.op in ("len", "sum") for x in walk(t))
    if t.op == "ex" or t.op == "fn" and t.args[0] in ("any", "in", "contains") or t.op == "in":
        return pos
    return False


def position(corr, row):
    ms = {x.args[1] for c in corr for x in walk(c.d["val"]) if x.op == "sel" and x.args[0] in (mk("sel", row, string("corr")), mk("sel", row, string("dist")))}
    if len(ms) > 1:
        return "several"
    return ms.pop() if len(ms) == 1 else None


def root_only(t, src):
    while t is not src:
        if t.op == "fn" and t.args[0] in ("flip", "flipud", "reversed") and len(t.args) > 1:
            t = t.args[1]
        elif t.op in ("sel", "snap") and (t.op == "snap" or t.args[1].op == "slice"):
            t = t.args[0]
        else:
            return False
    return True


def take(ctx):
    f = ctx.func(MODULE, "take_best_candidates")
    if f is None or len(f.params) != 4:
        return ctx.unk("anchor", "take_best_candidates", "not found")
    r = ctx.run(MODULE, "take_best_candidates", olds=True)
    if r is None:
        return
    src, dst, nc, us = [S(p) for p in f.params]
    tk = [e for e in r.ev("store") if root(e.d["base"]) is dst]
    marks = [e for e in r.ev("store") if root(e.d["base"]) is us]
    if len(tk) != 1:
        return ctx.unk("take", where(f), "place of the sets taken not recognised")
    e = tk[0]
    cand = e.d["val"]
    if cand.op != "sel":
        return ctx.unk("take", e.where, "set taken not recognised")
    # order
    lst = cand.args[0]
    srt = [x for x in walk(lst) if x.op in ("fn", "call") and x.args[0] in ("after_sort", "sort", "argsort", "sorted", "lexsort")]
    sorts = [x for x in r.ev("mutate") if x.d["how"] == "sort"]
    if srt:
        key = {x.args[0] for s in srt for x in walk(s) if x.op == "str"} | {x for s in srt for x in s.args if isinstance(x, str)}
        flips = sum(1 for x in walk(lst) if x.op == "fn" and x.args[0] in ("flip", "flipud", "reversed") or x.op == "slice" and len(x.args) == 3 and x.args[2] is num(-1))
        if "corr" not in key and not any(x.op == "sel" and x.args[1] is string("corr") for x in walk(lst)):
            if key - {"axis", "order", "kind", "sort", "argsort", "after_sort", "flip"} or all(x.args[0] == "after_sort" and len(x.args) == 2 and x.args[1] is src for x in srt):
                ctx.bad("order", e.where, "sets are not tried by their score")
            else:
                ctx.unk("order", e.where, "order of the sets")
        elif any(x.op == "poly" for s in srt for x in s.args if isinstance(x, T)):
            ctx.unk("order", e.where, "order of the sets")
        elif flips % 2 == 1:
            ctx.hold("order", e.where, "sets are tried by descending score")
        else:
            ctx.bad("order", e.where, "sets are tried by ascending score")
    elif not sorts and root_only(lst, src):
        ctx.bad("order", e.where, "sets are tried in the order found, not by their score")
    else:
        ctx.unk("order", e.where, "order of the sets")
    # condition
    iv = isym("cam")
    p = mk("sel", mk("sel", cand, string("p")), iv)
    tests = []
    for c in conjuncts(e.guard):
        t = c.args[0] if c.op == "not" else None
        if t is not None and t.op == "ex":
            v, lo, hi, body = t.args[0], t.args[1], t.args[2], t.args[3]
            b = tm.subst(body, {v: iv})
            u = [x for x in walk(b) if x.op == "sel" and x.args[1] is p]
            if u:
                tests.append((c, lo, hi, b, u[0]))
            elif any(x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[0] is cand for x in walk(b)):
                ctx.bad("unused", e.where, "the mark tested is not that of the set's detection in the camera: %s" % show(t, 5)[:160])
                return
    if not tests:
        if not any(x.op in ("mu", "muout") or x is us for c in conjuncts(e.guard) if c.op not in ("le0", "lt0") for x in walk(c)):
            ctx.bad("unused", e.where, "a set is taken without a test that its detections are unused")
        else:
            ctx.unk("unused", e.where, "test of the usage marks")
    for c, lo, hi, b, u in tests:
        if u.args[0].op == "sel" and u.args[0].args[1] is not iv and (u.args[0].args[1].op in ("num", "idx")):
            ctx.bad("unused", e.where, "the mark tested is that of another camera: %s" % show(u, 3))
            continue
        want = and_(lt(num(-1), p), gt(u, ZERO))
        x, y = implied(b, want), implied(want, b)
        if x is False and not implied(b, gt(u, ZERO)):
            x = None if implied(b, ne(u, ZERO)) else x
        if lo is ZERO and hi is nc and y:
            ctx.hold("unused", e.where, "a set is taken only if none of its detections is marked")
        elif y is False:
            ctx.bad("unused", e.where, "a set with a marked detection can be taken: tested is %s" % show(b, 4)[:160])
        elif y and (lo.op == "num" and lo.args[0] > 0 or sub(hi, nc).op == "num" and sub(hi, nc).args[0] < 0):
            ctx.bad("unused", e.where, "the marks of some cameras are not tested: range %s to %s" % (show(lo), show(hi)))
        else:
            ctx.unk("unused", e.where, "test of the usage marks")
    # marks
    good = 0
    for m in marks:
        ch = chain(m.d["base"], us)
        k = m.d["key"]
        cam = ch[0] if ch and len(ch) == 1 else None
        if cam is None:
            ctx.unk("mark", m.where, "mark not recognised")
            continue
        pm = mk("sel", mk("sel", cand, string("p")), cam)
        if k is not pm:
            if any(x is cand for x in walk(k)) or k.op in ("num", "idx", "mu"):
                ctx.bad("mark", m.where, "the detection marked in camera %s is %s" % (show(cam, 2), show(k, 4)))
            else:
                ctx.unk("mark", m.where, "mark not recognised")
            continue
        good += 1
        acc = [c for c in conjuncts(e.guard)]
        if tests and not any(c is tests[0][0] for c in conjuncts(m.guard)):
            ctx.bad("mark", m.where, "detections of a set that is not taken are marked")
        want = and_(ge(cam, ZERO), lt(cam, nc), lt(num(-1), pm), *acc)
        for c in conjuncts(m.guard):
            if any(c is x for x in acc) or not any(x is cam for x in walk(c)):
                continue
            v = implied(want, c)
            if v is False:
                ctx.bad("mark", m.where, "not every detection of a taken set is marked: only under %s" % show(c, 4))
            elif v:
                ctx.hold("mark", m.where, "every detection of a taken set is marked")
            else:
                ctx.unk("mark", m.where, "marked under %s" % show(c, 3))
        val = m.d["val"]
        v = implied(m.guard, gt(val, ZERO)) if val.op == "num" else True
        old = mk("sel", m.d["base"], k)
        if val.op == "num" and val.args[0] <= 0:
            ctx.bad("mark", m.where, "the mark set is %s" % show(val))
    if not marks:
        ctx.bad("mark", e.where, "the detections of a taken set are not marked as used")
    # place and count
    k = e.d["key"]
    if k.op == "mu":
        nm = k.args[-1]
        upd = [x for x in r.ev("assign") if x.d.get("name") == (nm.args[0] if isinstance(nm, T) else nm) and isinstance(x.d.get("val"), T) and x.d["val"].op == "poly" and any(
            y is k for y in walk(x.d["val"]))]
        ok = [x for x in upd if sub(x.d["val"], k) is ONE and x.guard is e.guard]
        if ok:
            ctx.hold("count", e.where, "each set taken gets a place of its own")
        elif upd and all(sub(x.d["val"], k).op == "num" and sub(x.d["val"], k) is not ONE for x in upd):
            ctx.bad("count", e.where, "the place of the next set is advanced by %s" % show(sub(upd[0].d["val"], k)))
        elif not upd:
            ctx.bad("count", e.where, "the sets taken all get the same place")
        else:
            ctx.unk("count", e.where, "place of the sets taken")
        v = r.ret()
        if v.op == "muout" and str(v.args[-1]) == str(nm) or v.op == "sum":
            ctx.hold("count", where(f), "the number of sets taken is returned")
        elif sub(v, k).op == "num" or v.op in ("len", "num") or v.op == "poly" and any(x.op == "muout" for x in walk(v)):
            ctx.bad("count", where(f), "the number returned is %s" % show(v, 3))
        else:
            ctx.unk("count", where(f), "number of sets taken")
    elif k.op == "num":
        ctx.bad("count", e.where, "the sets taken all get the same place")
    elif k.op == "poly" and any(x.op == "mu" and sub(k, x).op == "num" for x in walk(k)):
        ctx.bad("count", e.where, "the first set taken does not get the first place")
    else:
        ctx.unk("count", e.where, "place of the sets taken")


INNER = ("match_pairs", "four_camera_matching", "three_camera_matching", "consistent_pair_matching", "take_best_candidates")
ALLOC = ("safely_allocate_target_usage_marks", "safely_allocate_adjacency_lists")
PASS = {"four_camera_matching": 4, "three_camera_matching": 3, "consistent_pair_matching": 2}


def passes(ctx, n):
    f = ctx.func(MODULE, "correspondences")
    if f is None or len(f.params) != 6:
        return ctx.unk("anchor", "correspondences", "not found")
    fr, cor, vp, cp, ca, mc = f.params
    r = ctx.run(MODULE, "correspondences", opaque=INNER + ALLOC, sets=((cp + ".num_cams", num(n)),))
    if r is None:
        return
    calls = [e for e in r.ev("call") if e.d["name"] in PASS or e.d["name"] in ("take_best_candidates", "match_pairs")]
    order = [e.d["name"] for e in calls]
    flag = r.field(S(cp), "all_cam_flag")
    need = {4: {"four_camera_matching": TRUE, "three_camera_matching": eq(flag, ZERO), "consistent_pair_matching": eq(flag, ZERO)},
            3: {"three_camera_matching": TRUE, "consistent_pair_matching": eq(flag, ZERO)}, 2: {"consistent_pair_matching": eq(flag, ZERO)}}[n]
    for nm, g in need.items():
        es = [e for e in calls if e.d["name"] == nm]
        if not es:
            if ctx.func(MODULE, nm) is not None:
                ctx.bad("passes", where(f), "with %d cameras sets of %d cameras are not searched" % (n, PASS[nm]))
            continue
        e = es[0]
        if bycases(e.guard, g) and bycases(g, e.guard):
            ctx.hold("passes", e.where, "sets of %d among %d cameras are searched when they should" % (PASS[nm], n))
        elif implied(g, e.guard) is False or implied(e.guard, g) is False:
            ctx.bad("passes", e.where, "sets of %d among %d cameras are searched under the condition %s" % (PASS[nm], n, show(e.guard, 4)))
        else:
            ctx.unk("passes", e.where, "condition of the search of sets of %d cameras" % PASS[nm])
    seq_ = [PASS[x] for x in order if x in PASS]
    if seq_ != sorted(seq_, reverse=True):
        ctx.bad("passes", where(f), "sets of fewer cameras are taken before those of more cameras")
    else:
        ctx.hold("passes", where(f), "sets are taken by descending number of cameras (%d cameras)" % n)
    # every search is followed by its own selection
    total = r.elem(S(mc), 3) if False else mk("sel", S(mc), num(3))
    marks = None
    last = None
    allt = ZERO
    tot = mk("sel", S(mc), num(3))
    for e in calls:
        a = e.d["args"]
        if e.d["name"] in PASS:
            last = e
            vals = list(a.values())
            lim = a.get("accept_corr")
            if lim is not None:
                ctx.same("arguments", e.where, lim, r.field(S(vp), "corrmin"), "the score limit is that of the parameters")
            if "base_target_count" in a:
                ctx.same("arguments", e.where, a["base_target_count"], r.elem(r.field(S(fr), "num_targets"), 0), "all detections of the first camera are tried")
            if "target_counts" in a:
                ctx.same("arguments", e.where, a["target_counts"], r.field(S(fr), "num_targets"), "all detections of each camera are tried")
            if "num_cams" in a:
                ctx.same("arguments", e.where, a["num_cams"], num(n), "all cameras take part")
        elif e.d["name"] == "take_best_candidates":
            if last is None:
                ctx.unk("passes", e.where, "selection without a search")
                continue
            src, dst, us = a.get("src"), a.get("dst"), a.get("tusage")
            call = [x for x in walk(src) if x.op == "call" and x.args[0] in PASS] if src is not None else []
            if not call:
                ctx.unk("passes", e.where, "sets to select from not recognised")
            elif call[0].args[0] != last.d["name"]:
                ctx.bad("passes", e.where, "sets are selected with the number found by %s" % call[0].args[0])
            else:
                ctx.hold("passes", e.where, "the sets found are selected from")
                if src.op == "sel" and src.args[1].op == "slice":
                    ctx.same("passes", e.where, src.args[1], mk("slice", NONE, call[0], NONE) if src.args[1].args[0].op == "none" else mk("slice", ZERO, call[0], NONE),
                             "all sets found are selected from, no others")
            if us is not None:
                if marks is None:
                    marks = us
                if us is not marks:
                    ctx.bad("marks", e.where, "the usage marks of the sets with more cameras are not carried on") if us.op in ("obj", "call") else ctx.unk("marks", e.where, "marks")
                else:
                    ctx.hold("marks", e.where, "usage marks are carried from one selection to the next")
            if "num_cams" in a:
                ctx.same("arguments", e.where, a["num_cams"], num(n), "all cameras take part")
    # marks made anew
    if marks is not None:
        taken = [e for e in calls if e.d["name"] == "take_best_candidates"]
        ev = list(r.events)
        pos = {id(e): i for i, e in enumerate(ev)}
        for e in ev:
            anew = e.kind == "call" and "usage" in e.d["name"] and e.d["name"] in ALLOC or e.kind == "store" and root(e.d["base"]) is marks
            if anew and any(pos[id(t)] < pos[id(e)] for t in taken) and any(pos[id(t)] > pos[id(e)] and t.d["args"].get("tusage") is marks for t in taken):
                ctx.bad("marks", e.where, "the usage marks are cleared between two selections")
    # counts
    es = [e for e in r.ev("store") if e.d["base"] is S(mc)]
    for e in es:
        k, v = e.d["key"], e.d["val"]
        tb = [x for x in walk(v) if x.op == "call" and x.args[0] == "take_best_candidates"]
        if k.op != "num" or not tb:
            continue
        if k.args[0] == 3:
            if v.op == "call":
                if n == 2 or True:
                    ctx.unk("count", e.where, "total")
                continue
            # total is the sum of what was there and every selection so far
            continue
        if v.op == "call" and v.args[0] == "take_best_candidates":
            src = v.args[1]
            nm = next((x.args[0] for x in walk(src) if x.op == "call" and x.args[0] in PASS), None)
            if nm is None:
                continue
            if k.args[0] == 4 - PASS[nm]:
                ctx.hold("count", e.where, "sets of %d cameras are counted in their place" % PASS[nm])
            else:
                ctx.bad("count", e.where, "sets of %d cameras are counted as sets of %d" % (PASS[nm], 4 - int(k.args[0])))
            # offset
            d = v.args[2]
            off = ZERO
            if d.op == "sel" and d.args[1].op == "slice" and d.args[1].args[0].op != "none":
                off = d.args[1].args[0]
            elif d.op == "sel":
                ctx.unk("offset", e.where, "place of the sets taken")
                continue
            off = canon(tm.deep_assume(off, eq(flag, ZERO)) if PASS[nm] < max(seq_) else off)
            inner = {x for x in walk(off) if x.op == "sym" and str(x.args[0]).startswith("taken_")}
            want = ZERO
            for z in sorted(set(seq_), reverse=True):
                if z > PASS[nm]:
                    want = add(want, S("taken_%d" % z))
            okc = not any(x.op == "call" and x.args[0] == "take_best_candidates" for x in walk(off))
            first = PASS[nm] == max(seq_)
            if first:
                if n == 4 and off is not ZERO and not any(x is tot for x in walk(off)):
                    ctx.bad("offset", e.where, "the first sets do not start at the beginning")
                else:
                    ctx.hold("offset", e.where, "the first sets start at the beginning")
            elif okc:
                ctx.same("offset", e.where, tm.subst(off, {tot: ZERO}), want, "sets of %d cameras follow those taken before" % PASS[nm])
            elif not inner and off.op == "num":
                ctx.bad("offset", e.where, "sets of %d cameras overwrite those taken before" % PASS[nm])
            else:
                ctx.unk("offset", e.where, "place of the sets of %d cameras" % PASS[nm])
    # total
    t = r.elem(S(mc), 3)
    want = tot
    g = TRUE
    for e in es:
        if e.d["key"].op == "num" and e.d["key"].args[0] != 3 and e.d["val"].op == "call":
            want = add(want, phi(e.guard, e.d["val"], ZERO) if e.guard is not TRUE else e.d["val"])
    for v in (True, False):
        c = eq(flag, ZERO) if v else ne(flag, ZERO)
        ctx.same("count", where(f), canon(tm.deep_assume(t, c)), canon(tm.deep_assume(want, c)), "the total counts every set taken (%d cameras)" % n)
    # numbering
    con = r.ret()
    con = r.value
    cnt = {j: 0 for j in range(n)}
    for e in r.ev("store"):
        k = e.d["key"]
        if k is not string("tnr"):
            continue
        b, v = e.d["base"], e.d["val"]
        ch = chain(b, S(fr))
        if ch is None or len(ch) != 3 or ch[0] is not string("targets"):
            ctx.unk("number", e.where, "detection numbered not recognised")
            continue
        cam, t = ch[1], ch[2]
        cch = chain(t, S(cor))
        if cch is None and chain(t, con) is not None:
            ctx.bad("number", e.where, "the sorted position of a detection is used as its number in the target list: %s" % show(b, 5)[:120])
            continue
        if cch is None or len(cch) != 3 or cch[2] is not string("pnr"):
            ctx.unk("number", e.where, "detection numbered not recognised")
            continue
        pk = cch[1]
        pc = chain(pk, con)
        if pc is None or len(pc) != 3 or pc[1] is not string("p"):
            ctx.unk("number", e.where, "detection numbered not recognised")
            continue
        if cam is cch[0] and cam is pc[2]:
            ctx.hold("number", e.where, "the point number goes to the set's detection of camera %s" % show(cam, 2))
            if cam.op == "num":
                cnt[int(cam.args[0])] = 1
        else:
            ctx.bad("number", e.where, "the point number goes to the detection of another camera: %s" % show(b, 5))
        ctx.same("number", e.where, v, pc[0], "the number is the place of the set")
        lim = t3 = r.elem(S(mc), 3)
        iv = pc[0]
        for fl in (eq(flag, ZERO), ne(flag, ZERO)):
            gg = canon(tm.deep_assume(e.guard, fl))
            tt = canon(tm.deep_assume(t3, fl))
            ix = canon(tm.deep_assume(iv, fl))
            pp, qq = canon(tm.deep_assume(pk, fl)), canon(tm.deep_assume(t, fl))
            full = and_(ge(ix, ZERO), lt(ix, tt), ge(pp, ZERO), ge(qq, ZERO), lt(qq, num(100000)))
            for c in conjuncts(gg):
                if any(x.op == "idx" for x in walk(c)) and implied(full, c) is False and not implies(full, c, 4) and (c.op in ("lt0", "le0")) and linear_miss(full, c):
                    ctx.bad("number", e.where, "not every set taken is numbered: only under %s" % show(c, 3)[:160])
    for j in range(n):
        if cnt and not cnt[j] and any(cnt.values()):
            ctx.bad("number", where(f), "detections of camera %d are not numbered" % (j + 1))


def canon(t):
    # every selection by the search that it follows
    m = {}
    for x in walk(t):
        if x.op == "call" and x.args[0] == "take_best_candidates":
            nm = next((y.args[0] for y in walk(x.args[1]) if y.op == "call" and y.args[0] in PASS), None)
            if nm:
                m[x] = S("taken_%d" % PASS[nm])
    return tm.subst(t, m) if m else t


def linear_miss(full, c):
    a, b = atomise(full), atomise(c)
    for env in pit.sample_envs([a, b], 300, 5):
        try:
            if pit._b(a, env) and not pit._b(b, env):
                return True
        except (pit.Skip, OverflowError, ZeroDivisionError, TypeError, RecursionError):
            continue
    return False


def callsame(t, e):
    a = e.d["args"]
    return t.args[1] is a.get("src") or len(t.args) > 1 and list(a.values())[0] is t.args[1]


def results(ctx, n):
    f = ctx.func(MODULE, "py_correspondences")
    if f is None or len(f.params) != 5:
        return ctx.unk("anchor", "py_correspondences", "not found")
    pts, flat, ca, vp, cp = f.params
    r = ctx.run(MODULE, "py_correspondences", opaque=INNER + ALLOC, sets=((cp + ".num_cams", num(n)),))
    if r is None:
        return
    I, FL = S(pts), S(flat)
    flag = r.field(S(cp), "all_cam_flag")
    sets = {}
    for e in r.ev("call"):
        if e.d["name"] == "take_best_candidates":
            nm = next((x.args[0] for x in walk(e.d["args"].get("src", ZERO)) if x.op == "call" and x.args[0] in PASS), None)
            if nm:
                sets[PASS[nm]] = e
    place = {}
    for e in r.ev("store"):
        if e.func is not r.func:
            continue
        v, b, k = e.d["val"], e.d["base"], e.d["key"]
        ch = chain(v, I)
        if ch is not None and len(ch) == 3 and ch[2].op == "str" and ch[2].args[0] in ("x", "y"):
            t = ch[1]
            fc = chain(t, FL)
            o = root(b)
            bc = chain(b, o)
            if bc is not None:
                bc = bc + [k]
            if fc is None and t.op == "sel" and t.args[0].op == "sel" and t.args[0].args[1] is string("p"):
                ctx.bad("result", e.where, "the sorted position of a detection is used as its number in the target list: %s" % show(v, 5)[:120])
                continue
            if fc is None or len(fc) != 3 or bc is None or len(bc) != 3:
                ctx.unk("result", e.where, "position not recognised")
                continue
            want = 0 if ch[2].args[0] == "x" else 1
            if bc[2] is not num(want):
                ctx.bad("result", e.where, "%s is stored in place %s" % (ch[2].args[0], show(bc[2])))
            geo = fc[1]
            cams = [ch[0], fc[0], bc[0], geo.args[1] if geo.op == "sel" else None]
            if any(c is not cams[0] for c in cams):
                ctx.bad("result", e.where, "cameras are mixed in the results: %s" % ", ".join(show(c, 2) if c is not None else "?" for c in cams))
            else:
                ctx.hold("result", e.where, "the position of the set's detection of its own camera")
            if geo.op == "sel" and geo.args[0].op == "sel" and geo.args[0].args[0].op == "sel":
                place.setdefault(o, set()).add((sub(geo.args[0].args[0].args[1], bc[1]), bc[1].args[2] if bc[1].op == "idx" else None, e))
        elif chain(v, FL) is not None and len(chain(v, FL)) == 3 and chain(v, FL)[2] is string("pnr"):
            o = root(b)
            bc = chain(b, o)
            fc = chain(v, FL)
            if bc is None:
                continue
            bc = bc + [k]
            geo = fc[1]
            if len(bc) == 2 and geo.op == "sel":
                cams = [bc[0], fc[0], geo.args[1]]
                if any(c is not cams[0] for c in cams):
                    ctx.bad("result", e.where, "cameras are mixed in the results: %s" % ", ".join(show(c, 2) for c in cams))
                else:
                    ctx.hold("result", e.where, "the identifier of the set's detection of its own camera")
                if geo.args[0].op == "sel" and geo.args[0].args[0].op == "sel":
                    place.setdefault(o, set()).add((sub(geo.args[0].args[0].args[1], bc[1]), bc[1].args[2] if bc[1].op == "idx" else None, e))
    # offsets
    sizes = [x for x in (4, 3, 2) if x in sets]
    w = ZERO
    calls = {x for e in r.events for y in e.d.values() if isinstance(y, T) for x in walk(y) if x.op == "call" and x.args[0] == "take_best_candidates"}
    want = []
    for x in sizes:
        t = next((y for y in calls if callsame(y, sets[x])), None)
        if t is None:
            return ctx.unk("offset", where(f), "places of the sets")
        g = sets[x].guard
        t = t if g is TRUE else phi(g, t, ZERO)
        want.append((w, t))
        w = add(w, t)
    for c in (eq(flag, ZERO), ne(flag, ZERO)):
        cn = lambda z: canon(tm.deep_assume(z, c))
        known, found = True, set()
        for o, ps in place.items():
            if len({p for p, *_ in ps}) != 1 or len({n for _, n, _ in ps}) != 1 or next(iter(ps))[1] is None:
                ctx.unk("offset", where(f), "places of the sets")
                continue
            p, m, e = next(iter(ps))
            p, m = cn(p), cn(m)
            res = [(compare(p, cn(x))[0], compare(m, cn(y))[0]) for x, y in want]
            found |= {i for i, z in enumerate(res) if z == ("eq", "eq")}
            known = known and not any("unk" in z for z in res)
            if ("eq", "eq") in res or m is ZERO:
                ctx.hold("offset", e.where, "results of each kind of set are read from where the sets of that kind are")
            elif all("ne" in z for z in res):
                ctx.bad("offset", e.where, "results are read from places %s to %s more, sets are found at %s" % (show(p, 3)[:80], show(m, 3)[:60], ", ".join("%s (%s)" % (show(cn(x), 3)[:60], show(cn(y), 3)[:60]) for x, y in want)))
            else:
                ctx.unk("offset", e.where, "places of the sets")
        for i, (x, y) in enumerate(want):
            if i not in found and cn(y) is not ZERO and place and known:
                ctx.bad("offset", where(f), "the sets of %d cameras are not among the results (%d cameras)" % (sizes[i], n))
    rv = r.ret()
    if rv.op == "seq" and len(elems(rv)) == 3:
        for c in (eq(flag, ZERO), ne(flag, ZERO)):
            ctx.same("count", where(f), canon(tm.deep_assume(elems(rv)[2], c)), canon(tm.deep_assume(w, c)), "the count returned is the number of sets taken (%d cameras)" % n)
