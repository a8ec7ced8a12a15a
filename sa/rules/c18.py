"""C18: at most one link per direction, the better one wins, both ends agree."""
import ast

from ..rulekit import *
from .c17 import OP, frameof, lin, cmp

TECHNIQUE = ("guard analysis of every store to a particle's successor or predecessor in the linking passes: claimed end, owner's end, former owner and compared "
             "qualities are traced through the value graph; coverage of the cases by entailment between path conditions; dataflow of the candidate ordering")
S = lambda n: mk("sym", n)
OPS = tuple(x for x in OP if "register" not in x)


def check(ctx):
    ctx.rule("A candidate is claimed (its predecessor in forward, its successor in backward tracking is set) only by the particle whose own link names it, and only "
             "if it is unclaimed or, in forward tracking, if the claiming link's quality is strictly below the former owner's, whose link is then removed under the same "
             "condition; a particle that does not get its candidate loses its link; the claimed candidate is the first after ordering by quality, qualities and targets "
             "being ordered together; the candidate list of a particle grows by one entry holding quality and target at the same place; resetting the links leaves neither.")
    for q, mine, other in (("trackcorr_c_loop", "next_frame", "prev_frame"), ("trackback_c", "prev_frame", "next_frame")):
        f = ctx.func("track", q)
        if f is None:
            ctx.unk("anchor", q, "not found")
            continue
        r = ctx.run("track", q, opaque=OPS)
        if r is not None:
            Links(ctx, f, r, mine, other).check()
    order(ctx)
    register(ctx)
    reset(ctx)


def marker(ctx, name):
    """value of a constant of the package"""
    m = ctx.pkg.mods.get("constants")
    for n in (m.tree.body if m is not None else ()):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            try:
                return num(int(ast.literal_eval(n.value)))
            except (ValueError, TypeError):
                return None
    return None


class Links:
    def __init__(self, ctx, f, r, mine, other):
        self.ctx, self.f, self.r, self.mine, self.other = ctx, f, r, mine, other
        self.ids, self.memo = {}, {}
        for e in r.events:
            for t in [e.guard] + [v for v in e.d.values() if isinstance(v, T)]:
                for x in walk(t):
                    self.ids[x.id] = x
        self.none = {k: marker(ctx, {"next_frame": "NEXT_NONE", "prev_frame": "PREV_NONE"}[k]) for k in (mine, other)}

    def label(self, t):
        """values a loop may have changed, replaced by the places they are read from"""
        def go(x):
            r = self.memo.get(x)
            if r is None:
                r = x
                if x.op in ("mu", "muout") and len(x.args) > 1 and isinstance(x.args[1], tuple) and x.args[1][0] in ("f", "i") and x.args[1][1] in self.ids:
                    b = self.ids[x.args[1][1]]
                    if b.op != "obj" and not mentions(b, x):
                        self.memo[x] = x
                        b = go(b)
                        r = mk("sel", b, string(x.args[1][2])) if x.args[1][0] == "f" else b
                elif x.op == "snap":
                    r = go(x.args[0])
                elif kids(x):
                    r = rebuild(x, go)
                self.memo[x] = r
            return r
        return go(t)

    def simple(self, t, g):
        t = self.label(t)
        for c in conjuncts(g):
            t = tm.deep_assume(t, c)
        return t

    def self_simple(self, g):
        cs = conjuncts(and_(*conjuncts(g)))
        out = []
        for c in cs:
            x = c
            for d in cs:
                if d is not c and d.op in ("lt0", "le0", "eq0", "not"):
                    x = tm.deep_assume(x, d)
            out.append(c if x is TRUE else x)
        return and_(*out)

    def particle(self, t):
        """(slot, index) of a particle of the buffer"""
        if t.op == "sel" and fieldname(t.args[0]) == "path_info":
            k = frameof(t.args[0].args[0])
            if k is not None:
                return k, t.args[1]
        return None

    def fieldof(self, t, name, slot, idx):
        if t.op == "sel" and t.args[1].op == "str" and t.args[1].args[0] == name:
            p = self.particle(t.args[0])
            return p is not None and p[0] == slot and p[1] is idx
        return False

    def sorted_of(self, t, comp):
        """particle whose ordered candidate list the term is part comp of, or None"""
        if t.op == "sel" and t.args[1] is num(comp) and t.args[0].op == "call" and t.args[0].args[0].split(".")[-1] == "sort" and len(t.args[0].args) == 4:
            n, a, b = t.args[0].args[1:]
            ps = []
            for x, nm in ((n, "inlist"), (a, "decis"), (b, "linkdecis")):
                if not (x.op == "sel" and fieldname(x) == nm):
                    return None
                ps.append(self.particle(x.args[0]))
            if ps[0] and ps[0][0] == 1 and ps[1] == ps[0] and ps[2] == ps[0]:
                return ps[0][1]
        return None

    def best(self, t, comp):
        """particle whose best quality (comp 0) or target (comp 1) the term is"""
        if t.op == "sel" and t.args[1] is ZERO:
            j = self.sorted_of(t.args[0], comp)
            if j is not None:
                return j
            if fieldname(t.args[0]) == ("decis", "linkdecis")[comp]:
                p = self.particle(t.args[0].args[0])
                if p and p[0] == 1:
                    return p[1]
        return None

    def quality_of(self, t, idx, h):
        if t.op == "phi":
            return all(self.quality_of(x, idx, h) or mentions(t.args[0], idx) and self.quality_of(x, h, h) for x in t.args[1:])
        return self.fieldof(t, "finaldecis", 1, idx) or self.best(t, 0) is idx

    def check(self):
        ctx, r = self.ctx, self.r
        if None in self.none.values():
            return ctx.unk("claim", where(self.f), "marker of a missing link not found")
        claims, own, rest = [], [], []
        for e in r.ev("store"):
            if e.d["key"].op != "str":
                continue
            k = e.d["key"].args[0]
            if k not in (self.mine, self.other, "finaldecis", "decis", "linkdecis"):
                continue
            g = self.self_simple(self.label(e.guard))
            b = self.simple(e.d["base"], g)
            p = self.particle(b)
            v = self.simple(e.d["val"], g) if isinstance(e.d["val"], T) else None
            if p is None or v is None:
                if k in (self.mine, self.other):
                    rest.append(e)
                continue
            if k == self.other and p[0] == 2:
                claims.append((e, g, p[1], v))
            elif k == self.mine and p[0] == 1:
                own.append((e, g, p[1], v))
            elif k in (self.mine, self.other):
                ctx.bad("place", e.where, "a linking pass changes %s of slot %d of the buffer" % (k, p[0]))
            elif p[0] == 1:
                self.ordered(e, k, p[1], v)
        if rest:
            ctx.unk("place", rest[0].where, "changed link not recognised")
        if not claims:
            return ctx.unk("claim", where(self.f), "no claimed candidate recognised")
        for c in claims:
            self.claim(c, own)
        for o in own:
            self.own(o, claims)
        # every particle with candidates gets its candidate or loses its link
        if self.mine == "next_frame":
            self.cover(claims, own)

    def ordered(self, e, k, i, v):
        ctx = self.ctx
        want = {"finaldecis": 0, "decis": 0, "linkdecis": 1}[k]
        if k == "finaldecis":
            j = self.best(v, 0)
            if j is i:
                return ctx.hold("order", e.where, "the quality kept is the best one")
            if self.best(v, 1) is not None or j is not None or v.op == "sel" and self.sorted_of(v.args[0], 0) is i:
                return ctx.bad("order", e.where, "the quality kept is not the best one of the particle: %s" % show(v, 5)[:150])
            return ctx.unk("order", e.where, "quality kept: %s" % show(v, 5)[:150])
        if v.op == "obj" or v.op == "seq":
            return
        j = self.sorted_of(v, want)
        if j is i:
            return ctx.hold("order", e.where, "the list %s is ordered together with its partner" % k)
        if j is not None or self.sorted_of(v, 1 - want) is not None:
            return ctx.bad("order", e.where, "the list %s of a particle is replaced by %s" % (k, show(v, 4)[:150]))
        if v.op == "sel" and v.args[0].op == "call" and v.args[0].args[0].split(".")[-1] == "sort":
            a = v.args[0].args[1:]
            fs = [fieldname(x) for x in a]
            if all(x in ("decis", "linkdecis", "inlist") for x in fs):
                return ctx.bad("order", e.where, "the candidates are ordered by %s" % ", ".join(map(str, fs)))
        ctx.unk("order", e.where, "the list %s of a particle" % k)

    def names(self, v, h, j, g, own):
        """whether the link of particle h names candidate j"""
        if self.fieldof(j, self.mine, 1, h) or self.best(j, 1) is h:
            return True
        return any(i is h and w is j and implies(g, gg, 3) for e, gg, i, w in own)

    def claim(self, c, own):
        ctx = self.ctx
        e, g, j, h = c
        if h.op == "num":
            return ctx.unk("claim", e.where, "candidate released")
        if not self.names(h, h, j, g, own):
            k = j.args[0] if j.op == "sel" else None
            p = self.particle(k) if k is not None else None
            if j.op == "sel" and (p is not None or self.best(j, 1) is not None or self.sorted_of(j.args[0], 1) is not None or self.best(j, 0) is not None):
                return ctx.bad("claim", e.where, "particle %s is entered as the other end of candidate %s, which it does not name" % (show(h, 3), show(j, 4)[:120]))
            return ctx.unk("claim", e.where, "claimed candidate %s" % show(j, 4)[:120])
        if self.mine == "prev_frame":
            mate = [o for o in own if o[2] is h and o[3] is j]
            if not any(implies(g, o[1], 3) for o in mate):
                if own and (not mate or implied(g, or_(*[o[1] for o in mate])) is False):
                    ctx.bad("claim", e.where, "the claiming particle's own link is not set to the candidate it claims")
                else:
                    ctx.unk("claim", e.where, "both ends of the link")
            else:
                ctx.hold("claim", e.where, "both ends of the link are set together")
        else:
            ctx.hold("claim", e.where, "the claimed candidate is the one named by the particle")
        cur = next((x for x in walk(g) if self.fieldof(x, self.other, 2, j)), None)
        if cur is None:
            return ctx.bad("free", e.where, "a candidate is claimed without a test whether it has been claimed before")
        free = lt(cur, ZERO)
        if implies(g, free, 3):
            return ctx.hold("free", e.where, "an unclaimed candidate")
        # taken over
        lits = self.compared(g, h, cur)
        if not lits:
            if implies(g, not_(free), 3) or any(x is cur for x in value_like(g)):
                return ctx.bad("free", e.where, "a candidate claimed before is taken over without a comparison of the two links")
            return ctx.unk("free", e.where, "condition of the claim")
        if any(d < 0 for d, s in lits):
            return ctx.bad("free", e.where, "a candidate is taken over by the worse link")
        if any(not s for d, s in lits):
            return ctx.bad("free", e.where, "a candidate is taken over by a link that is no better than the former one")
        rem = [o for o in own if o[2] is cur]
        if not rem:
            return ctx.bad("free", e.where, "the former owner of a candidate taken over keeps its link")
        if any(implies(g, o[1], 3) and o[3] is self.none[self.mine] for o in rem):
            return ctx.hold("free", e.where, "a better link takes the candidate over and the former owner's link is removed")
        if all(o[3].op == "num" and o[3] is not self.none[self.mine] for o in rem):
            return ctx.bad("free", e.where, "the former owner's link is set to %s" % show(rem[0][3]))
        ctx.unk("free", e.where, "link of the former owner")

    def compared(self, g, h, former):
        """comparisons of qualities in a condition: (+1: the particle's link is better, -1 worse; strict)"""
        out = []
        for c in walk(g):
            if c.op not in ("lt0", "le0"):
                continue
            d = tm.topoly(c.args[0])
            if len(d) != 2 or sorted(d.values()) != [-1, 1] or any(len(m) != 1 or m[0][1] != 1 for m in d):
                continue
            (x,), (y,) = [[m[0][0] for m, v in d.items() if v == s] for s in (1, -1)]
            if self.quality_of(x, h, h) and self.quality_of(y, former, h):
                out.append((1, c.op == "lt0"))
            elif self.quality_of(y, h, h) and self.quality_of(x, former, h):
                out.append((-1, c.op == "lt0"))
        return out

    def own(self, o, claims):
        ctx = self.ctx
        e, g, i, v = o
        if v is self.none[self.mine]:
            # a link is removed: of a former owner, or of a particle that does not get its candidate
            for ce, cg, j, h in claims:
                cur = next((x for x in walk(g) if self.fieldof(x, self.other, 2, j)), None)
                if cur is None:
                    continue
                if i is cur:
                    lits = self.compared(g, h, cur)
                    if lits and all(d > 0 and s for d, s in lits):
                        return ctx.hold("remove", e.where, "the worse link is removed")
                    if lits and any(d < 0 for d, s in lits):
                        return ctx.bad("remove", e.where, "the better of two links is removed")
                    if not lits:
                        return ctx.bad("remove", e.where, "a former owner's link is removed without a comparison of the two links")
                if i is h:
                    lits = self.compared(g, h, cur)
                    if lits and all(d < 0 or not s for d, s in lits) and all(d < 0 for d, s in lits):
                        return ctx.hold("remove", e.where, "a link no better than the former one is dropped")
                    if lits and any(d > 0 for d, s in lits):
                        return ctx.bad("remove", e.where, "the better of two links is dropped")
            return ctx.unk("remove", e.where, "removed link")
        if v.op == "num":
            return ctx.bad("remove", e.where, "a link is set to %s, which is not the marker of a missing one" % show(v))
        if self.best(v, 1) is i:
            ctx.hold("own", e.where, "the link names the best candidate")
        elif self.best(v, 1) is not None or self.best(v, 0) is not None or v.op == "sel" and self.sorted_of(v.args[0], 1) is not None:
            return ctx.bad("own", e.where, "the link does not name the best candidate of its particle: %s" % show(v, 4)[:150])
        else:
            ctx.unk("own", e.where, "link of a particle: %s" % show(v, 4)[:150])
        if self.mine == "prev_frame":
            mate = [c for c in claims if c[2] is v and c[3] is i]
            if any(implies(g, c[1], 3) for c in mate):
                ctx.hold("own", e.where, "both ends of the link are set together")
            elif not mate or implied(g, or_(*[c[1] for c in mate])) is False:
                ctx.bad("own", e.where, "a particle is linked to a candidate whose other end is not set to it")
            else:
                ctx.unk("own", e.where, "both ends of the link")

    def cover(self, claims, own):
        ctx = self.ctx
        hs = {h for e, g, j, h in claims}
        if len(hs) != 1:
            return ctx.unk("cover", where(self.f), "cases of the linking pass")
        h = hs.pop()
        gs = [g for e, g, j, hh in claims] + [g for e, g, i, v in own if i is h and v is self.none[self.mine]]
        common = set(conjuncts(gs[0]))
        for g in gs[1:]:
            common &= set(conjuncts(g))
        base = and_(*common)
        if any(fieldname(x) == self.other or fieldname(x) == "finaldecis" for c in common for x in value_like(c)):
            return ctx.unk("cover", where(self.f), "cases of the linking pass")
        if implies(base, or_(*gs), 6):
            return ctx.hold("cover", where(self.f), "a particle gets its candidate or loses its link")
        v = implied(base, or_(*gs))
        if v is False:
            return ctx.bad("cover", claims[-1][0].where, "a particle that does not get its candidate keeps its link to it")
        if v:
            return ctx.hold("cover", where(self.f), "a particle gets its candidate or loses its link")
        ctx.unk("cover", where(self.f), "cases of the linking pass")


def value_like(g):
    return list(walk(g))


def order(ctx):
    f = ctx.func("track", "sort")
    if f is None or len(f.params) != 3:
        return ctx.unk("sort", "sort", "not found")
    r = ctx.run("track", "sort")
    if r is None:
        return
    n, a, b = (S(p) for p in f.params)
    so = [e for e in r.ev("extcall") if e.d["name"].split(".")[-1] == "sorted"]
    ret = r.ret()
    if len(so) != 1 or ret.op != "seq" or len(elems(ret)) != 2:
        return ctx.unk("sort", where(f), "way of ordering not recognised")
    e = so[0]
    kw = e.d["kw"]
    rv = kw.get("reverse")
    if rv is not None and truth(rv) is not FALSE:
        return ctx.bad("sort", e.where, "the candidates are ordered by descending quality value")
    arg = e.d["args"][0]
    el = next((x for x in walk(arg) if x.op == "seq" and len(elems(x)) == 2), None)
    if el is None:
        return ctx.unk("sort", e.where, "ordered pairs not recognised")
    ro = [next((p for p in (n, a, b) if mentions(x, p) and p is not n), None) for x in elems(el)]
    if "key" not in kw and ro == [b, a]:
        return ctx.bad("sort", e.where, "the candidates are ordered by their number, not by quality")
    if sorted([x.id for x in ro if x is not None]) != sorted([a.id, b.id]):
        return ctx.unk("sort", e.where, "ordered pairs not recognised")
    if "key" in kw:
        lam = [k.value for x in ast.walk(f.node) if isinstance(x, ast.Call) and ast.unparse(x.func) == "sorted" for k in x.keywords if k.arg == "key"]
        if len(lam) == 1 and isinstance(lam[0], ast.Lambda) and len(lam[0].args.args) == 1 and isinstance(lam[0].body, ast.Subscript) and \
                ast.unparse(lam[0].body.value) == lam[0].args.args[0].arg and isinstance(lam[0].body.slice, ast.Constant) and lam[0].body.slice.value in (0, 1) and None not in ro:
            if ro[lam[0].body.slice.value] is not a:
                return ctx.bad("sort", e.where, "the candidates are ordered by their number, not by quality")
        else:
            return ctx.unk("sort", e.where, "key of the ordering")
    hi = next((x for x in walk(arg) if x.op == "comp"), None)
    lim = {y for x in walk(arg) if x.op == "slice" for y in x.args if y.op not in ("none",)}
    if hi is not None and hi.args[2].op not in ("mu", "muout"):
        cnt = hi.args[2]
        if cnt.op == "min":
            cnt = n if n in kids(cnt) else next((x for x in kids(cnt) if mentions(x, n)), cnt)
        if not mentions(cnt, a) and not mentions(cnt, b):
            lim.add(sub(cnt, hi.args[1]))
    if lim - {n, ZERO}:
        return ctx.bad("sort", e.where, "not exactly the first n candidates are ordered")
    got = []
    for x in elems(ret):
        ks = {int(y.args[1].args[0]) for y in walk(x) if y.op == "sel" and y.args[1].op == "num" and any(z.op in ("call", "ext", "fn", "star", "extcall") or z.op == "star" for z in [y.args[0]])}
        got.append((next((p for p in (a, b) if root(strip(x)) is p), None), ks))
    if got == [(a, {0}), (b, {1})]:
        return ctx.hold("sort", where(f), "qualities and targets are ordered together by quality")
    if all(p is not None and len(k) == 1 for p, k in got):
        return ctx.bad("sort", where(f), "ordered qualities and targets are returned in the wrong lists")
    ctx.unk("sort", where(f), "result of the ordering: %s" % show(ret, 6)[:200])


def strip(t):
    while t.op == "snap":
        t = t.args[0]
    return t


def register(ctx):
    f = ctx.func("tracking_frame_buf", "Pathinfo.register_link_candidate")
    if f is None or len(f.params) != 3:
        return ctx.unk("register", "register_link_candidate", "not found")
    me, fit, cand = (S(p) for p in f.params)
    r = ctx.run("tracking_frame_buf", "Pathinfo.register_link_candidate")
    if r is None:
        return
    want = {"decis": fit, "linkdecis": cand}
    seen = set()
    n = None
    for e in r.ev("store", "mutate"):
        b = e.d.get("base")
        if e.kind == "store" and e.d["key"].op == "str" and e.d["key"].args[0] == "inlist" and b is me:
            n = e
            continue
        nm = fieldname(b) if b is not None else None
        if e.kind != "store" or nm not in want or b.args[0] is not me:
            continue
        seen.add(nm)
        pos = mk("sel", me, string("inlist"))
        if e.d["val"] is want[nm] and e.d["key"] is pos:
            ctx.hold("register", e.where, "%s is kept at the end of the particle's candidates" % nm)
        elif e.d["val"] in want.values() and e.d["val"] is not want[nm]:
            ctx.bad("register", e.where, "%s of a candidate is kept in the list of the other" % show(e.d["val"]))
        elif e.d["val"] is want[nm] and cmp(e.d["key"], pos) is False:
            ctx.bad("register", e.where, "%s of a candidate is kept at place %s" % (nm, show(e.d["key"], 4)))
        else:
            ctx.unk("register", e.where, "entry of the list of candidates")
    if seen == set(want) and n is not None:
        v = cmp(n.d["val"], add(mk("sel", me, string("inlist")), ONE))
        if v:
            ctx.hold("register", n.where, "one candidate more")
        elif v is False:
            ctx.bad("register", n.where, "the number of candidates becomes %s" % show(n.d["val"], 4))
        else:
            ctx.unk("register", n.where, "number of candidates")
    elif seen == set(want):
        ctx.bad("register", where(f), "the number of candidates does not grow")
    else:
        ctx.unk("register", where(f), "entries of the candidate lists")


def reset(ctx):
    """a particle whose links are reset has none"""
    q = "Pathinfo.reset_links"
    f = ctx.func("tracking_frame_buf", q)
    if f is None or len(f.params) != 1:
        return ctx.unk("reset", q, "not found")
    r = ctx.run("tracking_frame_buf", q)
    if r is None:
        return
    for k, m in (("prev_frame", "PREV_NONE"), ("next_frame", "NEXT_NONE")):
        want = marker(ctx, m)
        if want is None:
            ctx.unk("reset", where(f), "%s not found" % m)
            continue
        ctx.same("reset", where(f), r.field(S(f.params[0]), k), want, "%s of a particle whose links are reset is %s" % (k, m))
