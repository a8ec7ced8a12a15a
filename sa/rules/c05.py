"""C05: tracking result files read back as written."""
from ..rulekit import *

TECHNIQUE = ("dataflow of the frame writers into record layouts (file name, count, columns as functions of the record index) and of the readers "
             "from columns into fields, composed field by field and file by file; provenance of file names through every caller")

MOD = "tracking_frame_buf"


PLAIN = {"sel", "sym", "str", "num", "idx", "poly", "none", "slice", "len", "inf", "mul"}


class Layout:
    def __init__(self, path_, guard):
        self.path, self.guard = path_, guard
        self.count = None
        self.cols = None  # list of tokens for record idx
        self.idx = self.hi = self.lo = None
        self.fmts = None
        self.why = None
        self.ev = None


def tokens(v):
    parts = list(v.args) if v.op == "fmt" else [v]
    toks = [[]]
    for p in parts:
        if p.op != "str":
            toks[-1].append(p)
            continue
        for ch in p.args[0]:
            if ch in " \t\n":
                if toks[-1]:
                    toks.append([])
            else:
                toks[-1].append(string(ch))
    return [t for t in toks if t]


def layouts(r):
    out = {}
    for e in r.ev("fwrite"):
        L = out.setdefault(e.file, Layout(e.file.args[0], e.guard))
        v = e.val
        if v.op == "savetxt":
            L.ev = e
            kw = e.d.get("kw") or {}
            h = kw.get("header")
            while h is not None and h.op == "fmt" and len(h.args) == 1:
                h = h.args[0]
            if h is not None and h.op == "fv":
                h = h.args[0]
            L.count = h
            a = v.args[0]
            while a.op == "reshape" or a.op == "fn" and a.args[0] in ("reshape", "array") or a.op == "call" and a.args[0].lstrip(".") == "reshape":
                a = a.args[0] if a.op == "reshape" else a.args[1]
            if a.op == "comp" and a.args[3].op == "seq" and a.args[4] == TRUE:
                L.idx, L.lo, L.hi = a.args[0], a.args[1], a.args[2]
                L.cols = [[x] for x in elems(a.args[3])]
            else:
                L.why = "records not recognised"
            f = kw.get("fmt")
            if f is not None and f.op == "str":
                L.fmts = f.args[0].split()
            c = kw.get("comments")
            if c is None or c.op != "str" or c.args[0]:
                L.why = "header with comment mark"
            continue
        inner = [l for l in e.loops]
        base = min((len(x.loops) for x in r.ev("open") if x.file is e.file), default=0)
        if len(inner) == base:
            t = tokens(v)
            if L.count is None and len(t) == 1 and L.cols is None:
                x = t[0]
                L.count = x[0].args[0] if len(x) == 1 and x[0].op == "fv" else x[0] if len(x) == 1 else None
            else:
                L.why = "text outside the records"
        elif len(inner) == base + 1 and L.cols is None:
            lp = inner[-1]
            L.ev = e
            L.idx, L.lo, L.hi = lp.idx, lp.lo, lp.hi
            L.cols = tokens(v)
            if not v.op == "fmt" or v.args[-1].op != "str" or not v.args[-1].args[0].endswith("\n"):
                L.why = "line end"
        else:
            L.why = "records written in pieces"
    return out


def val_of(tok):
    if len(tok) != 1:
        return None
    return tok[0].args[0] if tok[0].op == "fv" else tok[0]


def spec_of(L, k):
    if L.fmts is not None:
        return L.fmts[k].lstrip("%") if k < len(L.fmts) else None
    t = L.cols[k]
    if len(t) == 1 and t[0].op == "fv":
        s = t[0].args[1]
        return s.args[0] if isinstance(s, T) and s.op == "str" else s if isinstance(s, str) else ""
    return None


def check(ctx):
    ctx.rule("For each file a frame is stored in, the writer's record layout (name, count, one value per column as a function of the record number) "
             "and the reader's column of every field are extracted from the source and have to agree; the callers that pass names, frame "
             "numbers and counts are followed to the open and write operations.")
    W = {}
    targets(ctx, W)
    paths(ctx, W)
    frame_write(ctx, W)
    frame_read(ctx)
    buffers(ctx)


TF = ["pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr"]


def mapping(ctx, key, f, L, fields, want):
    """column of every field, want(field) -> value for record L.idx"""
    res = {}
    if L.why or L.cols is None:
        ctx.unk(key, where(f), L.why or "no records")
        return None
    for k, t in enumerate(L.cols):
        if len([x for x in t if x.op != "str"]) > 1:
            ctx.bad(key, where(f), "two values in one column: %s" % " ".join(show(x, 3) for x in t))
            return None
    vals = [val_of(t) for t in L.cols]
    for p in fields:
        w = want(p)
        at = [k for k, v in enumerate(vals) if v is not None and compare(v, w)[0] == "eq"]
        if len(at) == 1:
            res[p] = at[0]
            ctx.hold(key, where(f), "%s in column %d" % (p, at[0]))
        elif not at and all(v is not None and all(x.op in PLAIN for x in walk(v)) for v in vals):
            ctx.bad(key, where(f), "no column holds %s of the record: %s" % (p, " ".join(show(v, 6) for v in vals)))
        elif len(at) > 1:
            ctx.bad(key, where(f), "%s is in columns %s" % (p, at))
        else:
            ctx.unk(key, where(f), p)
    return res


def count(ctx, key, f, L, n):
    """n: number of records that have to be written"""
    if L.count is None or L.hi is None:
        return ctx.unk(key + ":count", where(f), "count not recognised")
    recs = sub(L.hi, L.lo)
    pre = and_(le(ZERO, n))
    ctx.same(key + ":count", where(f), L.count, n, "the first line holds the number of records", pre)
    if L.hi.op == "len" and not is_int_const(L.hi):
        x = L.hi.args[0]
        if x.op == "sel" and x.args[1].op == "slice" and x.args[1].args[1] == n:
            return ctx.hold(key + ":records", where(f), "the records are the first %s" % show(n, 3))
    r = compare(recs, n, pre)[0]
    if r == "ne" and recs.op == "len":
        # a list longer than the count
        ctx.bad(key + ":records", where(f), "%s records are written with the count %s" % (show(recs, 4), show(n, 3)))
    else:
        ctx.add(key + ":records", {"eq": HOLDS, "ne": VIOLATED, "unk": UNKNOWN}[r], where(f), "%s records, count %s" % (show(recs, 4), show(n, 3)))


def unslice(t):
    while t.op == "sel" and t.args[1].op == "slice" and t.args[1].args[0] in (NONE, ZERO):
        t = t.args[0]
    return t


def targets(ctx, W):
    f = ctx.func(MOD, "write_targets")
    g = ctx.func(MOD, "read_targets")
    rw = f and len(f.params) == 4 and ctx.run(MOD, "write_targets")
    rr = g and len(g.params) == 2 and ctx.run(MOD, "read_targets")
    if not rw or not rr:
        return
    ts, n, base, num_ = (mk("sym", p) for p in f.params)
    Ls = layouts(rw)
    if len(Ls) != 1:
        return ctx.unk("targets:write", where(f), "%d files" % len(Ls))
    L = list(Ls.values())[0]
    W["targets"] = L
    el = sel(ts, L.idx) if L.idx is not None else None

    def want(p):
        return sel(el, string(p))
    if L.cols is not None:
        L.cols = [[subst_slice(x, ts) for x in t] for t in L.cols]
    m = mapping(ctx, "targets:write", f, L, TF, want)
    if m is None:
        return
    count(ctx, "targets", f, L, n)
    v = rr.ret()
    if v.op == "comp" and v.args[3].op == "rec" and v.args[4] == TRUE:
        idx, lo, hi, rec = v.args[0], v.args[1], v.args[2], v.args[3]
        fields = dict(rec.args[1])
        cnt = [x for x in walk(hi) if x.op == "line"]
        ctx.add("targets:read:count", HOLDS if len(cnt) == 1 and cnt[0].args[1] == ZERO and sub(hi, lo) == mk("fn", "pint", cnt[0]) else
                VIOLATED if len(cnt) == 1 and compare(sub(hi, lo), mk("fn", "pint", mk("line", cnt[0].args[0], ZERO)))[0] == "ne" else UNKNOWN,
                where(g), "as many records are read as the first line says")
        for p in TF:
            x = fields.get(p)
            column(ctx, "targets:read", g, p, x, m, sub(add(idx, ONE), lo), L)
    else:
        ctx.unk("targets:read", where(g), "result %s" % show(v, 4))
    # names
    pos = gt(num_, ZERO)
    wp = assume(L.path, pos, True)
    op = {e.file.args[0] for e in rr.ev("open")}
    if len(op) == 1:
        rp = subst(op.pop(), {mk("sym", g.params[0]): base, mk("sym", g.params[1]): num_})
        names(ctx, "targets:name", g, rp, wp, pos)
    ctx.add("targets:name", HOLDS if mentions(wp, num_) else VIOLATED, where(f), "the file name contains the frame number")
    ctx.add("targets:name", HOLDS if mentions(wp, base) else VIOLATED, where(f), "the file name contains the base name")


def subst_slice(t, ts):
    """element of a leading slice is the element of the list"""
    def f(x):
        if x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[1].op == "slice" and x.args[0].args[1].args[0] in (NONE, ZERO) \
                and x.args[0].args[0] is ts:
            return sel(ts, x.args[1])
        return None
    mp = {x: f(x) for x in walk(t) if f(x) is not None}
    return subst(t, mp) if mp else t


def deep_under(t, *facts):
    INTEGRAL = [x for x in walk(t) if x.op == "sym"]
    for c in facts:
        t = assume(t, c, True)
    return t


def names(ctx, key, f, got, want, under):
    def norm(t):
        cs = [x for x in walk(t) if x.op in ("le0", "lt0", "eq0", "eq", "not")]
        mp = {}
        for c in cs:
            if c.op == "not":
                continue
            if implies(under, c):
                mp[c] = TRUE
            elif implies(under, not_(c)):
                mp[c] = FALSE
        t = subst(t, mp)
        return t
    for n in [x for x in walk(under) if x.op == "sym"]:
        INTS.add(n)
    a, b = norm(got), norm(want)
    a, b = assume(a, under, True), assume(b, under, True)
    if a is b or show(a, 30) == show(b, 30):
        ctx.hold(key, where(f), "read from the name it is written to")
    elif not any(x.op in ("unk", "call") and not str(x.args[0]).startswith(".") for t in (a, b) for x in walk(t)) and literal(a) != literal(b):
        ctx.bad(key, where(f), "read from %s but written to %s" % (show(a, 8)[:300], show(b, 8)[:300]))
    else:
        ctx.unk(key, where(f), "names %s / %s" % (show(a, 8)[:200], show(b, 8)[:200]))


def literal(t):
    """string pieces and symbols of a name"""
    return sorted(x.args[0] for x in walk(t) if x.op in ("str", "sym"))


def source(x):
    """(line term, token index, conversion) of a number read from a file"""
    conv = []
    while x.op == "fn" and x.args[0] in ("pint", "pfloat", "int", "trunc", "toint", "float") and len(x.args) == 2:
        conv.append(x.args[0])
        x = x.args[1]
    if x.op == "trunc" or x.op == "int":
        return source(x.args[0])
    if x.op == "sel" and x.args[0].op == "split" and x.args[1].op == "num":
        l = x.args[0].args[0]
        while l.op == "fn" and l.args[0] in ("strip", "rstrip", "lstrip"):
            l = l.args[1]
        if l.op == "line":
            return l, int(x.args[1].args[0]), conv
    return None


def column(ctx, key, g, p, x, m, line, L, ncol=None):
    if p not in m:
        return
    ncol = ncol or len(L.cols)
    s = source(x) if x is not None else None
    if s is None:
        if x is not None and (const_like(x) or not any(y.op in ("line", "fread", "flines", "call", "unk", "mu", "muout") for y in walk(x))):
            ctx.bad(key, where(g), "%s is not read from its column but is %s" % (p, show(x, 4)))
        else:
            ctx.unk(key, where(g), "%s = %s" % (p, show(x, 8) if x is not None else "?"))
        return
    l, k, conv = s
    k = k + ncol if k < 0 else k
    ctx.add(key, HOLDS if k == m[p] else VIOLATED, where(g), "%s is read from column %d, written to column %d" % (p, k, m[p]))
    if not any(y.op in ("mu", "muout") for y in walk(l.args[1])):
        ctx.same(key + ":line", where(g), l.args[1], line, "record i of %s is line i+1" % p)
    sp = spec_of(L, m[p])
    if sp is not None and conv:
        if conv[-1] == "pint" and sp and sp[-1] in "feEgG":
            ctx.bad(key, where(g), "%s is read as an integer but written with format %s" % (p, sp))
        if "pfloat" in conv and len(conv) == 1 and sp:
            dig = sp.rstrip("fFeEgG").split(".")
            if sp[-1] in "dn" or sp[-1] in "fFeE" and len(dig) > 1 and int(dig[1] or 0) < 3:
                ctx.bad(key, where(g), "%s is written with format %s" % (p, sp))


PX = ["x.0", "x.1", "x.2"]


def pfield(cor, pat, p, idx):
    a, b = (p.split(".") + [None])[:2]
    t = sel(sel(cor if a == "p" else pat, idx), string(a))
    return sel(t, num(int(b))) if b is not None else t


def kinds(Ls, corr, link, prio):
    out = {}
    for fl, L in Ls.items():
        for nm, b in (("corres", corr), ("linkage", link), ("prio", prio)):
            if mentions(L.path, b):
                out[nm] = L if nm not in out else None
    return out


SETS = {"corres": PX + ["p.%d" % i for i in range(4)], "linkage": ["prev_frame", "next_frame"] + PX, "prio": ["prev_frame", "next_frame", "prio"]}


def path_layouts(ctx, key, f, Ls, corr, link, prio, cor, pat, n, num_, base_guard=TRUE):
    K = kinds(Ls, corr, link, prio)
    res = {}
    for nm, fields in SETS.items():
        L = K.get(nm)
        if L is None:
            if len(K) < 3 and not any(x.op in ("call", "unk") for L in Ls.values() for x in walk(L.path)) and nm not in K:
                ctx.bad(key + ":" + nm, where(f), "no file is written under the %s name" % nm)
            else:
                ctx.unk(key + ":" + nm, where(f), "file not recognised")
            continue
        m = mapping(ctx, key + ":" + nm, f, L, fields, lambda p: pfield(cor, pat, p, L.idx))
        if m is None:
            continue
        if nm == "corres":
            v = val_of(L.cols[0]) if L.cols else None
            if v is not None:
                ctx.same(key + ":number", where(f), v, sub(add(L.idx, ONE), L.lo), "points are numbered from one")
        count(ctx, key + ":" + nm, f, L, n)
        bs = {"corres": corr, "linkage": link, "prio": prio}
        others = [x for k, x in bs.items() if k != nm and mentions(L.path, x)]
        ctx.add(key + ":name", HOLDS if mentions(L.path, num_) and not others else VIOLATED, where(f),
                "the %s file is named after its own base name and the frame number" % nm)
        # records of one file on every path on which it is opened
        if L.ev is not None:
            dom = and_(le(L.lo, L.idx), lt(L.idx, L.hi))
            nonempty = and_(L.guard, dom)
            ok = implies(nonempty, L.ev.guard)
            if not ok and not any(x.op in ("call", "unk", "exc", "mu", "muout") for x in walk(L.ev.guard)):
                ctx.bad(key + ":every", L.ev.where, "records of the %s file are left out: written only if %s" % (nm, show(L.ev.guard, 6)))
            else:
                ctx.add(key + ":every", HOLDS if ok else UNKNOWN, L.ev.where, "every record of the %s file is written" % nm)
        res[nm] = (L, m)
    return res


def paths(ctx, W):
    f = ctx.func(MOD, "write_path_frame")
    g = ctx.func(MOD, "read_path_frame")
    rw = f and len(f.params) == 7 and ctx.run(MOD, "write_path_frame")
    rr = g and len(g.params) == 4 and ctx.run(MOD, "read_path_frame")
    if not rw or not rr:
        return
    cor, pat, n, cb, lb, pb, num_ = (mk("sym", p) for p in f.params)
    Ls = layouts(rw)
    R = path_layouts(ctx, "write", f, Ls, cb, lb, pb, cor, pat, n, num_)
    rc, rl, rp, rn = (mk("sym", p) for p in g.params)
    m = {rc: cb, rl: lb, rp: pb, rn: num_}
    # names
    for nm, b in (("corres", cb), ("linkage", lb), ("prio", pb)):
        if nm not in R:
            continue
        op = {subst(e.file.args[0], m) for e in rr.ev("open") if mentions(subst(e.file.args[0], m), b)}
        if len(op) == 1:
            given = ne(b, string(""))
            a, w = op.pop(), R[nm][0].path
            a, w = assume(a, given, True), assume(w, given, True)
            names(ctx, "name:" + nm, g, a, w, given)
        elif not op:
            ctx.bad("name:" + nm, where(g), "the %s file is never read" % nm)
        else:
            ctx.unk("name:" + nm, where(g), "names")
    # fields stored in the reading loop
    given = and_(ne(rl, string("")), ne(rp, string("")))
    got = {}
    for e in rr.ev("store"):
        if e.key.op != "str" or e.key.args[0] not in ("prev_frame", "next_frame", "prio", "x", "p", "nr") or not e.loops:
            continue
        b = e.base
        if b.op != "sel":
            continue
        gd = assume(e.guard, given, True)
        if gd == FALSE:
            continue
        got.setdefault(e.key.args[0], []).append((b.args[1], e))
    for p, src in (("prev_frame", "linkage"), ("next_frame", "linkage"), ("prio", "prio"), ("p", "corres"), ("x", "corres")):
        if src not in R:
            continue
        L, mm = R[src]
        es = got.get(p)
        if not es:
            ctx.add("read:" + p, UNKNOWN, where(g), "no store of %s found in the reading loop" % p)
            continue
        i, e = es[-1]
        v = rr.ip.snap(rr.st, e.val)
        v = assume(v, given, True)
        hi = {"corres": rc, "linkage": rl, "prio": rp}
        its = [v] if p in ("prev_frame", "next_frame", "prio") else None
        if its is None:
            k = 4 if p == "p" else 3
            its = [rr.ip.snap(rr.st, rr.ip.getitem(rr.st, v, num(j), None)) for j in range(k)]
            its = [assume(x, given, True) for x in its]
            # how many entries
            ln = length_of(v, len(L.cols))
            if ln is not None:
                ctx.add("read:%s:size" % p, HOLDS if ln == k else VIOLATED, e.where, "%s has %d entries" % (p, ln))
        for j, x in enumerate(its):
            x = unslice_comp(x, len(L.cols))
            nmf = p if len(its) == 1 else "%s.%d" % (p, j)
            s = source(x)
            if s is not None:
                fsrc = s[0].args[0]
                own = subst(fsrc, m)
                ob = {"corres": cb, "linkage": lb, "prio": pb}
                other = [kk for kk, bb in ob.items() if mentions(own, bb) and kk != src]
                if other:
                    # the same value may stand in more than one file
                    okc = [kk for kk in other if kk in R and nmf in R[kk][1]]
                    if not okc:
                        ctx.bad("read:" + p, e.where, "%s is read from the %s file" % (nmf, other[0]))
                        continue
                    L2, m2 = R[okc[0]]
                    column(ctx, "read:" + p, g, nmf, unslice_comp(its[j], len(L2.cols)), m2, add(i, ONE), L2)
                    continue
            column(ctx, "read:" + p, g, nmf, x, mm, add(i, ONE), L)
    es = got.get("nr")
    if es:
        ctx.same("read:nr", es[-1][1].where, rr.ip.snap(rr.st, es[-1][1].val), add(es[-1][0], ONE), "points are numbered from one")


def length_of(v, ncol):
    while v.op in ("snap", "cp"):
        v = v.args[0]
    if v.op == "fn" and v.args[0] in ("trunc", "toint"):
        v = v.args[1]
    if v.op == "comp" and v.args[1] == ZERO:
        return length_of(v.args[2].args[0], ncol) if v.args[2].op == "len" else None
    if v.op == "split":
        return ncol
    if v.op == "sel" and v.args[1].op == "slice":
        n = length_of(v.args[0], ncol)
        if n is None:
            return None
        ab = [None if x is NONE or x.op == "none" else int(x.args[0]) if x.op == "num" else "?" for x in v.args[1].args]
        return None if "?" in ab else len(range(n)[slice(*ab)])
    if v.op == "seq":
        return len(elems(v))
    return None


def unslice_comp(x, ncol):
    """element of a slice of the token list -> token, for a line of ncol tokens"""
    wrap = []
    while x.op in ("trunc", "int") or x.op == "fn" and x.args[0] in ("trunc", "int", "toint") and len(x.args) == 2:
        wrap.append(x)
        x = x.args[-1]
    if x.op == "sel" and x.args[1].op == "num":
        b, k = x.args[0], int(x.args[1].args[0])
        rngs = list(range(ncol))

        def go(b):
            if b.op in ("trunc", "int") or b.op == "fn" and b.args[0] in ("trunc", "int", "toint"):
                return go(b.args[-1])
            if b.op == "sel" and b.args[1].op == "slice":
                r = go(b.args[0])
                if r is None:
                    return None
                ab = [None if y.op == "none" else int(y.args[0]) if y.op == "num" else "?" for y in b.args[1].args]
                if "?" in ab:
                    return None
                return r[0][slice(*ab)], r[1]
            if b.op == "comp" and b.args[1] == ZERO:
                return rngs, b
            return None
        r = go(b)
        if r is not None and -len(r[0]) <= k < len(r[0]):
            c = r[1]
            return subst(c.args[3], {c.args[0]: num(r[0][k])})
    return x


def frame_write(ctx, W):
    f = ctx.func(MOD, "Frame.write")
    if f is None or len(f.params) != 6:
        return
    S = mk("sym", f.params[0])
    r = ctx.run(MOD, "Frame.write", types={f.params[0]: "Frame"})
    if r is None:
        return
    cb, lb, pb, tb, num_ = (mk("sym", p) for p in f.params[1:])
    Ls = layouts(r)
    P = {k: L for k, L in Ls.items() if not mentions(L.path, tb)}
    path_layouts(ctx, "frame", f, P, cb, lb, pb, sel(S, string("correspond")), sel(S, string("path_info")), sel(S, string("num_parts")), num_)
    T = [L for L in Ls.values() if mentions(L.path, tb)]
    if len(T) != 1 or T[0].ev is None or not T[0].ev.loops:
        return ctx.unk("frame:targets", where(f), "target files not recognised")
    L = T[0]
    lp = L.ev.loops[0]
    cam = lp.idx
    ts = sel(sel(S, string("targets")), cam)
    ctx.same("frame:cameras", where(f), sub(lp.hi, lp.lo), sel(S, string("num_cams")), "one target file per camera")
    bases = [x for x in walk(L.path) if x.op == "sel" and x.args[0] is tb]
    ctx.add("frame:targets:name", HOLDS if bases and all(x.args[1] is cam for x in bases) else VIOLATED if bases else UNKNOWN, where(f),
            "each camera's targets are written under the camera's own base name")
    ctx.add("frame:targets:name", HOLDS if mentions(L.path, num_) else VIOLATED, where(f), "with the frame number")
    if L.cols:
        L.cols = [[subst_slice(x, ts) for x in t] for t in L.cols]
        mapping(ctx, "frame:targets", f, L, TF, lambda p: sel(sel(ts, L.idx), string(p)))
        n = sel(sel(S, string("num_targets")), cam)
        if L.count is not None and (L.count == n or L.count == length(ts)):
            ctx.hold("frame:targets:count", where(f), "with the camera's own count")
        elif L.count is not None and not any(x.op in ("call", "unk") for x in walk(L.count)):
            ctx.bad("frame:targets:count", where(f), "the count written for a camera is %s" % show(L.count, 5))
        else:
            ctx.unk("frame:targets:count", where(f), "count")


def frame_read(ctx):
    f = ctx.func(MOD, "Frame.read")
    if f is None or len(f.params) != 6 or ctx.func(MOD, "read_path_frame") is None or ctx.func(MOD, "read_targets") is None:
        return
    S = mk("sym", f.params[0])
    r = ctx.run(MOD, "Frame.read", types={f.params[0]: "Frame"}, opaque=("read_path_frame", "read_targets"))
    if r is None:
        return
    cb, lb, pb, tb, num_ = (mk("sym", p) for p in f.params[1:])
    calls = [e for e in r.ev("call") if e.name == "read_path_frame"]
    for e in calls:
        want = dict(zip(ctx.func(MOD, "read_path_frame").params, (cb, lb, pb, num_)))
        for k, w in want.items():
            a = r.ip.snap(r.st, e.args[k]) if k in e.args else None
            if a is not None:
                ctx.add("frame:read:args", HOLDS if a == w else VIOLATED if not any(x.op in ("call", "unk", "phi") for x in walk(a)) else UNKNOWN,
                        e.where, "%s is read with %s" % (k, show(a, 4)))
    if len(calls) == 1:
        t = mk("call", "read_path_frame", *[calls[0].args[p] for p in ctx.func(MOD, "read_path_frame").params if p in calls[0].args])
        got = {}
        for e in r.ev("store"):
            if e.base is S and e.key.op == "str":
                got[e.key.args[0]] = e
        for k, w in (("correspond", (sel(t, ZERO),)), ("path_info", (sel(t, ONE),)), ("num_parts", (length(sel(t, ZERO)), length(sel(t, ONE))))):
            e = got.get(k)
            if e is None:
                ctx.unk("frame:read:" + k, where(f), "no store of %s" % k)
                continue
            v = r.ip.snap(r.st, e.val)
            ctx.add("frame:read:" + k, HOLDS if v in w else VIOLATED if all(x.op not in ("unk", "phi") for x in walk(v)) else UNKNOWN, e.where,
                    "%s becomes %s" % (k, show(v, 6)))
    for e in r.ev("call"):
        if e.name != "read_targets" or not e.loops:
            continue
        p0, p1 = ctx.func(MOD, "read_targets").params[:2]
        cam = e.loops[-1].idx
        a, b = r.ip.snap(r.st, e.args[p0]), r.ip.snap(r.st, e.args[p1])
        ctx.add("frame:read:targets", HOLDS if a == sel(tb, cam) else VIOLATED if a.op == "sel" and a.args[0] is tb or not mentions(a, tb) else UNKNOWN,
                e.where, "camera %s reads %s" % (show(cam), show(a, 4)))
        ctx.add("frame:read:targets", HOLDS if b == num_ else VIOLATED if not any(x.op in ("call", "unk") for x in walk(b)) else UNKNOWN, e.where,
                "of frame %s" % show(b, 4))
        t = mk("call", "read_targets", e.args[p0], e.args[p1])
        ctx.same("frame:read:cameras", e.where, sub(e.loops[-1].hi, e.loops[-1].lo), sel(S, string("num_cams")), "targets of all cameras are read")
        for x in r.ev("store", "mutate"):
            if x.kind == "store" and x.base is sel(S, string("targets")):
                v = r.ip.snap(r.st, x.val)
                ctx.add("frame:read:targets", HOLDS if x.key is cam and v == t else VIOLATED if all(y.op not in ("unk", "phi") for y in walk(v)) else UNKNOWN,
                        x.where, "targets[%s] becomes %s" % (show(x.key), show(v, 4)))
            if x.kind == "store" and x.base is sel(S, string("num_targets")):
                v = r.ip.snap(r.st, x.val)
                ok = x.key is cam and (v == length(t) or v == length(sel(sel(S, string("targets")), cam)))
                ctx.add("frame:read:counts", HOLDS if ok else VIOLATED if all(y.op not in ("unk", "phi") for y in walk(v)) else UNKNOWN,
                        x.where, "num_targets[%s] becomes %s" % (show(x.key), show(v, 5)))


def buffers(ctx):
    """names passed on by the frame buffer"""
    for q, write in (("FrameBuf.read_frame_at_end", False), ("FrameBuf.disk_read_frame_at_end", False), ("FrameBuf.write_frame_from_start", True)):
        f = ctx.func(MOD, q)
        r = f and ctx.run(MOD, q)
        if not r:
            continue
        S = mk("sym", f.params[0])
        num_ = mk("sym", f.params[1]) if len(f.params) > 1 else None
        names_ = {k: sel(S, string(k + "_file_base")) for k in ("corres", "linkage", "prio", "target")}
        seen = {}
        for e in r.ev("open"):
            ks = [k for k, b in names_.items() if mentions(e.path, b)]
            if len(ks) != 1:
                ctx.add("buffer:%s" % f.node.name, UNKNOWN if any(x.op in ("call", "unk") for x in walk(e.path)) else VIOLATED, e.where,
                        "a file named %s is opened" % show(e.path, 5)[:200])
                continue
            seen.setdefault(ks[0], []).append(e)
            if num_ is not None:
                ctx.add("buffer:%s" % f.node.name, HOLDS if mentions(e.path, num_) else VIOLATED, e.where, "the %s file has the frame number in its name" % ks[0])
            # which writer/reader handles the name
            fn_ = e.func.node.name if e.func is not None else ""
            kind = {"corres": ("path",), "linkage": ("path",), "prio": ("path",), "target": ("target",)}[ks[0]]
            if "path" in fn_ or "target" in fn_:
                ctx.add("buffer:%s" % f.node.name, HOLDS if any(k in fn_ for k in kind) else VIOLATED, e.where, "%s name used by %s" % (ks[0], fn_))
            if write and ks[0] in ("corres", "linkage", "prio") or not write:
                pass
        rl = mk("sym", f.params[2]) if len(f.params) > 2 else None
        for k in names_:
            if k not in seen and not seen:
                continue
            if k not in seen:
                ctx.add("buffer:%s" % f.node.name, VIOLATED, where(f), "the %s file is not handled" % k)
                continue
            if rl is not None and k in ("linkage", "prio"):
                for e in seen[k]:
                    ctx.add("buffer:links", HOLDS if implies(e.guard, truth(rl)) else VIOLATED if implies(e.guard, not_(truth(rl))) else UNKNOWN,
                            e.where, "%s file read only when links are asked for" % k)
        # roles inside the path readers: the file opened under each name
        g = ctx.func(MOD, "write_path_frame" if write else "read_path_frame")
        if g is None:
            continue
        rg = ctx.run(MOD, g.node.name)
        if not rg:
            continue
        role = {}
        for e in rg.ev("open"):
            for p in g.params:
                if p.endswith("_file_base") and mentions(e.path, mk("sym", p)):
                    role[e.node] = p[:-len("_file_base")]
        for k in ("corres", "linkage", "prio"):
            for e in seen.get(k, ()):
                if e.node in role:
                    ctx.add("buffer:roles", HOLDS if role[e.node] == k else VIOLATED, e.where,
                            "the %s base name is used for the %s file" % (k, role[e.node]))
