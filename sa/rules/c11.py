"""C11: detected spots obey the limits, and no pixel is used twice."""
from ..rulekit import *

TECHNIQUE = ("guard analysis: the conditions under which a spot is reported and a pixel is added are extracted from the source and must imply "
             "the limits; value-graph comparison of the accumulators' increments with the reported figures")
M = "segmentation"
FIELDS = ("x", "y", "n", "nx", "ny", "sumg")
LIMITS = (("nnmin", "n", 1), ("nnmax", "n", -1), ("nxmin", "nx", 1), ("nxmax", "nx", -1), ("nymin", "ny", 1), ("nymax", "ny", -1))


def check(ctx):
    ctx.rule("For the two spot finders the condition under which a spot is reported must imply each configured limit for the figure that is "
             "reported; the condition under which a pixel is added must imply that its grey value exceeds the threshold of the camera and must be "
             "false for the same pixel after it was added; the amounts added per pixel must make the reported count, sum, extent and position the "
             "count, sum, bounding box and weighted mean of the added pixels. A spot whose figures are added to those of another is marked, is not reported, and is "
             "added to one other spot only: the search for others ends with the merger or looks at the mark again.")
    for q in ("targ_rec", "peak_fit"):
        f = ctx.func(M, q)
        if f is None or len(f.params) != 8:
            ctx.unk("anchor", q, "not found")
            continue
        r = ctx.run(M, q, olds=True)
        if r is None:
            continue
        Finder(ctx, f, r).check()


def tfield(f, name):
    return mk("sel", mk("sym", f.params[1]), string(name))


class Finder:
    def __init__(self, ctx, f, r):
        self.ctx, self.f, self.r, self.ip = ctx, f, r, r.ip
        self.thr = mk("sel", tfield(f, "gvthresh"), mk("sym", f.params[7]))
        self.w = where(f)

    def check(self):
        ctx = self.ctx
        reps = self.reports()
        if not reps:
            return ctx.unk("anchor", self.w, "no reported spot found")
        for q, guards, e in reps:
            self.limits(q, guards, e)
        locs = [q for q, g, e in reps if all(k in q for k in FIELDS)]
        self.pixels(locs)
        self.merged(reps)
        self.scan()

    # ---- the reported figures and the conditions of the report
    def reports(self):
        out = []
        for e in self.r.ev("new"):
            if e.cls is not None and getattr(e.cls, "name", str(e.cls)) in ("Target",) and all(k in e.kw for k in FIELDS):
                q, gs = {k: e.kw[k] for k in FIELDS}, [e.guard]
                out.extend(self.chase(q, gs, e))
        groups = {}
        for e in self.r.ev("store"):
            if e.key.op == "str" and e.key.args[0] in FIELDS:
                groups.setdefault((e.base, e.guard), []).append(e)
        for (b, g), es in groups.items():
            d = {e.key.args[0]: e for e in es}
            if all(k in d for k in FIELDS):
                out.append(({k: d[k].val for k in FIELDS}, [g], es[0]))
        return out

    def chase(self, q, gs, e):
        """figures taken from the entries of a list: what was appended to that list"""
        roots = set()
        for v in q.values():
            if v.op == "sel" and v.args[0].op == "sel" and v.args[1].op in ("num", "str") and v.args[0].args[0].op in ("muout", "mu"):
                k = v.args[0].args[0].args[1]
                roots.add(k[1] if isinstance(k, tuple) and k[0] == "i" else None)
            else:
                roots.add(None)
        if len(roots) != 1 or None in roots:
            return [(q, gs, e)]
        oid = roots.pop()
        out = []
        for m in self.r.ev("mutate"):
            if m.base.id != oid or m.d.get("how") != "append":
                continue
            o = self.ip.objs.get(m.val)
            c = o.content if o else None
            if c is None or c.op != "seq":
                return []
            es = elems(c)
            try:
                out.append(({k: es[int(v.args[1].args[0])] for k, v in q.items()}, gs + [m.guard], m))
            except (IndexError, TypeError, ValueError):
                return []
        return out

    # ---- limits
    def limits(self, q, guards, e):
        ctx, f = self.ctx, self.f
        g = and_(*guards)
        wh = e.where
        # counts are integers: at least n means more than n - 1
        plain = {nm: le(tfield(f, nm), q[qn]) if s > 0 else le(q[qn], tfield(f, nm)) for nm, qn, s in LIMITS}
        lits = [(nm, qn, lt(sub(tfield(f, nm), ONE), q[qn]) if s > 0 else lt(q[qn], add(tfield(f, nm), ONE))) for nm, qn, s in LIMITS]
        smin = tfield(f, "sumg_min")
        lits.append(("sumg_min", "sumg", or_(le(smin, q["sumg"]), le(smin, add(q["sumg"], mul(q["n"], self.thr))))))
        for nm, qn, s in LIMITS:
            INTS.update(value_atoms(q[qn]))
        for nm, qn, lit in lits:
            fld = tfield(f, nm)
            msg = "a spot is reported only if its %s respects %s" % (qn, nm)
            if any(implied(g, x) is True for x in ([plain[nm]] if nm in plain else lit.args)):
                ctx.hold("limit", wh, msg)
                continue
            cs = [c for c in conjuncts(g) if mentions(c, fld)]
            if not cs:
                if self.used_elsewhere(fld):
                    ctx.unk("limit", wh, msg)
                else:
                    ctx.bad("limit", wh, msg + ": the limit is never tested")
                continue
            r = implied(g, lit)
            if r is True:
                ctx.hold("limit", wh, msg)
            elif r is False:
                ctx.bad("limit", wh, msg + ": the conditions of the report are %s" % "; ".join(show(c, 4) for c in cs)[:300])
            else:
                ctx.unk("limit", wh, msg)

    def used_elsewhere(self, fld):
        for e in self.r.events:
            if e.kind == "branch" and mentions(e.d.get("cond", TRUE), fld):
                return True
            if e.kind in ("return", "new", "call", "extcall", "mutate") and any(
                    isinstance(v, T) and v is not fld and mentions(v, fld) for v in e.d.values()):
                return True
        return False

    # ---- spots that are merged into another
    def merged(self, reps):
        ctx = self.ctx
        for e in self.r.ev("store"):
            if e.key.op != "str" or e.key.args[0] != "n" or e.base.op != "sel" or not e.loops:
                continue
            a = e.base
            bs = {x.args[0] for x in walk(e.val) if x.op == "sel" and x.args[1] is e.key and x.args[0].op == "sel" and x.args[0].args[0] is a.args[0]} - {a}
            if len(bs) != 1:
                continue
            b = bs.pop()
            lp = e.loops[-1]
            ks = {s.key.args[0] for s in self.r.ev("store") if s.base is b and s.guard is e.guard and s.key.op == "str" and s.key.args[0] not in FSET}
            if len(ks) != 1:
                ctx.unk("merged", e.where, "how a merged spot is marked is not recognised")
                continue
            k = ks.pop()
            for q, guards, at in reps:
                cs = [c for c in conjuncts(and_(*guards)) if names_field(c, k)]
                if not cs:
                    ctx.bad("merged:report", at.where, "a spot whose pixels were given to another spot (%s) is reported as well" % e.where)
                elif any(implied(c, eq(x, ZERO)) is True for c in cs for x in walk(c) if names_field(x, k) and x.op in ("sel", "mu", "muout")):
                    ctx.hold("merged:report", at.where, "a spot whose pixels were given to another spot is not reported")
                else:
                    ctx.unk("merged:report", at.where, "a spot whose pixels were given to another spot is not reported")
            if mentions(b, lp.idx):
                ctx.unk("merged:once", e.where, "the pixels of a spot are given to one other spot only")
                continue
            mine = set(conjuncts(e.guard))
            ends = [x for x in self.r.ev("break", "return", "raise") if x.loops and lp in x.loops]
            if any(set(conjuncts(x.guard)) <= mine for x in ends):
                ctx.hold("merged:once", e.where, "the pixels of a spot are given to one other spot only")
                continue
            apart = ne(a.args[1], b.args[1])
            live = [c for c in mine if any(x.op == "mu" and names_field(x, k) for x in walk(tm.deep_assume(c, apart)))]
            flags = {x.d["name"] for x in self.r.ev("assign") if x.loops and lp in x.loops and set(conjuncts(x.guard)) >= mine}
            if live or any(x.op in ("mu", "muout") and x.args[1] in flags for c in mine for x in walk(c)):
                ctx.unk("merged:once", e.where, "the pixels of a spot are given to one other spot only")
            else:
                ctx.bad("merged:once", e.where, "the pixels of a spot are given to every spot it touches, so that they are counted more than once: the search goes on after the merger and does not look at %s of the spot again" % k)

    # ---- pixels
    def pixels(self, qs):
        ctx = self.ctx
        for q in qs:
            info = self.accumulators(q)
            if info:
                self.local(q, *info)
        self.fields(qs)

    def accumulators(self, q):
        """the loop in which the reported figures are accumulated in local variables"""
        outs = [x for x in walk(q["n"]) if x.op == "muout" and isinstance(x.args[1], str)]
        if len(outs) != 1:
            return None
        key = outs[0].args[0]
        li = [l for l in self.ip.loopinfo if l["key"] == key]
        return (key, li[0]) if li else None

    def local(self, q, key, li):
        ctx, f = self.ctx, self.f
        names = {}
        for k in FIELDS:
            for x in walk(q[k]):
                if x.op == "muout" and x.args[0] == key and isinstance(x.args[1], str):
                    names[x.args[1]] = x
        outs = {x.args[1] for k in FIELDS for x in walk(q[k]) if x.op == "muout" and x.args[0] == key and isinstance(x.args[1], str)}
        cnt = [x for x in walk(q["n"]) if x.op == "muout"][0].args[1]
        inits = {v: li["init"].get(v) for v in outs}
        sm = next((m[0][0].args[1] for m, c in topoly(q["sumg"]).items() if len(m) == 1 and m[0][0].op == "muout"), None)
        # first pixel
        if all(v is not None for v in inits.values()):
            self.formulas("seed", q, {names[v]: inits[v] for v in outs}, where(f, li["node"]), self.seed(li, inits, q, names, cnt), q, names, inits)
        # added pixels
        ev = [e for e in self.r.ev("assign") if e.name in outs and e.old is not None and any(l.node is li["node"] for l in e.loops)]
        groups = {}
        for e in ev:
            if e.name == cnt:
                d = safe_sub(e.val, e.old)
                if d is not None:
                    groups[e.guard] = e
        for g, e0 in groups.items():
            mine = [e for e in ev if e.stack == e0.stack and (e.guard is g or implied_by(e.guard, g))]
            delta = {}
            for e in mine:
                if e.guard is g:
                    d = safe_sub(e.val, e.old)
                    if d is None:
                        delta = None
                        break
                    delta[e.name] = add(delta.get(e.name, ZERO), d)
            if delta is None:
                ctx.unk("added", e0.where, "amounts not recognised")
                continue
            sts = [s for s in self.r.ev("store") if s.old is not None and s.stack == e0.stack and (
                s.guard is g or mentions(delta.get(sm, ZERO), s.old) and implies(g, s.guard, 3))]
            taken = self.marks(g, sts, e0, delta.get(sm), li)
            if taken is None:
                continue
            y, x, pix = taken
            self.over_threshold(g, pix, e0)
            ratio_names = {v for v in outs if any(m is names[v] for k in ("x", "y", "sumg", "n") for m in walk(q[k]))}
            self.formulas("added", q, {names[v]: delta.get(v, ZERO) for v in ratio_names}, e0.where, (y, x, pix), None, None, None)
            self.extent(q, names, g, mine, (y, x), e0)

    def seed(self, li, inits, q, names, cnt):
        """location and value of the first pixel: the marking store before the loop"""
        best = None
        for s in self.r.ev("store"):
            if s.old is None or any(l.node is li["node"] for l in s.loops):
                continue
            if not s.loops or s.func is not li["func"]:
                continue
            loc = self.location(s)
            if loc and self.falsified(s.guard, s) is True:
                best = loc + (s.old, s.guard, s)
        return best

    def location(self, s):
        """row and column of an image element that is stored"""
        if s.base.op == "row":
            return s.base.args[1], s.key
        if s.key.op == "seq" and len(elems(s.key)) == 2:
            return tuple(elems(s.key))
        return None

    def falsified(self, g, s):
        """is the condition false for the same place after the store"""
        if not any(mentions(c, s.old) for c in conjuncts(g)) or is_num(s.old):
            return None
        rel = and_(*[c for c in conjuncts(g) if mentions(c, s.old)])
        tmp = mk("sym", "@old")
        t = subst(subst(rel, {s.old: tmp}), {tmp: s.val})
        t = and_(t, le(ZERO, self.thr))
        if s.val.op == "poly":
            for x in walk(s.val):
                if x.op in ("mu", "muout"):  # a counter
                    t = and_(t, le(ZERO, x))
        if t is FALSE or unsat(t):
            return True
        r = implied(t, FALSE)
        return False if r is False else None

    def marks(self, g, sts, e0, pix, li):
        ctx = self.ctx
        cand = [(s, self.falsified(g, s)) for s in sts if self.location(s)]
        good = [s for s, r in cand if r is True]
        msg = "a pixel that was added is marked so that it is not added again"
        if good:
            ctx.hold("marked", e0.where, msg)
            s = good[0]
            y, x = self.location(s)
            return y, x, s.old
        if any(r is False for s, r in cand):
            ctx.bad("marked", e0.where, msg + ": the mark does not stop it")
            return None
        self.unmarked(pix, g, li["node"], e0.where)
        return None

    def unmarked(self, pix, g, loop, wh, sure=True):
        """evidence that a pixel is not marked: nothing is written at its place, or only under a further condition"""
        ctx = self.ctx
        msg = "a pixel that was added is marked so that it is not added again"
        if pix is not None and pix.op == "fn" and pix.args[0] == "int":
            pix = pix.args[1]
        if pix is None or pix.op != "sel" or pix.args[0].op != "sel":
            return ctx.unk("marked", wh, msg)
        y, x = pix.args[0].args[1], pix.args[1]
        here = [s for s in self.r.ev("store") if self.location(s) == (y, x)]
        other = [s for s in self.r.ev("mutate", "store", "extcall", "call") if any(l.node is loop for l in s.loops) and s not in here
                 and any(isinstance(v, T) and mentions(v, y) and mentions(v, x) for k, v in s.d.items() if k in ("key", "val"))
                 and not (s.kind == "store" and self.location(s) and len({y, x} & set(self.location(s))) == 0 and s.val in (y, x))]
        if not here and not other and sure:
            return ctx.bad("marked", wh, msg + ": nothing is written at [%s, %s]" % (show(y, 4), show(x, 4)))
        for s in here:
            rest = [c for c in conjuncts(s.guard) if c not in conjuncts(g)]
            if len(here) == 1 and rest and sure and implied(g, and_(*rest)) is False:
                return ctx.bad("marked", wh, msg + ": only if %s" % "; ".join(show(c, 5) for c in rest)[:200])
        ctx.unk("marked", wh, msg)

    def over_threshold(self, g, pix, e):
        msg = "the grey value of every pixel that is added exceeds the threshold of the camera"
        self.decide("threshold", e, g, lt(self.thr, pix), msg)

    def decide(self, key, e, g, lit, msg):
        r = implied(g, lit)
        if r is True:
            self.ctx.hold(key, e.where, msg)
        elif r is False:
            cs = [c for c in conjuncts(g) if atoms_of(c) & atoms_of(lit)]
            self.ctx.bad(key, e.where, msg + ": required %s, conditions %s" % (show(lit, 5), "; ".join(show(c, 5) for c in cs)[:300]))
        else:
            self.ctx.unk(key, e.where, msg)

    def formulas(self, what, q, mp, wh, loc, *seed):
        ctx = self.ctx
        if loc is None:
            if what == "seed":
                s = subst(q["sumg"], mp)
                pix = [x for x in walk(s) if x.op == "sel" and x.args[0].op == "sel" and x.args[0].args[0].op in ("mu", "muout", "sym")]
                if len(pix) == 1:
                    self.unmarked(pix[0], TRUE, None, wh)
            return ctx.unk(what, wh, "pixel not recognised")
        y, x, pix = loc[:3]
        if what == "seed":
            self.over_threshold(loc[3], pix, loc[4])
            ctx.hold("marked", loc[4].where, "the first pixel is marked so that it is not added again")
        s = subst(q["sumg"], mp)
        n = subst(q["n"], mp)
        half = div(ONE, num(2))
        pairs = [("n", n, ONE), ("sum", s, None)]
        s_, pix_ = strip(atomise(s)), strip(atomise(pix))
        thr = strip(atomise(self.thr))
        ok = any(compare(s_, w)[0] == "eq" for w in (pix_, sub(pix_, thr)))
        if ok:
            ctx.hold(what, wh, "each pixel contributes its grey value")
        else:
            self.cmp(what, wh, s_, pix_, "each pixel contributes its grey value to the sum")
        self.cmp(what, wh, atomise(n), ONE, "each pixel is counted once")
        for k, c in (("x", x), ("y", y)):
            v = subst(sub(q[k], half), mp)
            if mentions_inf(v):
                ctx.unk(what, wh, k)
                continue
            self.cmp(what, wh, strip(atomise(v)), strip(atomise(c)), "the reported %s is the weighted mean of the pixel positions plus one half" % k)
        if seed and seed[0] is not None:
            q, names, inits = seed
            for k in ("nx", "ny"):
                self.cmp(what, wh, strip(atomise(subst(q[k], mp))), ONE, "the extent %s of a single pixel is one" % k)

    def cmp(self, key, wh, a, b, msg, under=TRUE):
        r, d = compare(a, b, under)
        if r == "eq":
            self.ctx.hold(key, wh, msg)
        elif r == "ne":
            self.ctx.bad(key, wh, msg + ": found %s, required %s" % (show(a, 6)[:200], show(b, 6)[:200]), d)
        else:
            self.ctx.unk(key, wh, msg)

    def extent(self, q, names, g, mine, loc, e0):
        ctx = self.ctx
        for k, c in (("nx", loc[1]), ("ny", loc[0])):
            p = sub(q[k], ONE)
            co = {v: topoly(p).get(((names[v], 1),)) for v in names}
            hi = [v for v, c_ in co.items() if c_ == 1]
            lo = [v for v, c_ in co.items() if c_ == -1]
            if len(hi) != 1 or len(lo) != 1 or len(topoly(p)) != 2:
                ctx.unk("extent", e0.where, k)
                continue
            for v, fn_, word in ((hi[0], smax, "largest"), (lo[0], smin, "smallest")):
                es = [e for e in mine if e.name == v]
                msg = "%s covers the added pixel: its %s coordinate is updated" % (k, word)
                if not es:
                    if any(e.name == v for e in self.r.ev("assign") if e.old is not None and e.loops and e0.loops and e.loops[-1].node is e0.loops[-1].node):
                        ctx.unk("extent", e0.where, msg)
                    else:
                        ctx.bad("extent", e0.where, msg + ": it is not")
                    continue
                old = es[0].old
                new, plain = old, True
                for e in es:
                    rest = and_(*[x for x in conjuncts(e.guard) if x not in conjuncts(g) and not unsat(and_(g, not_(x)))])
                    plain = plain and rest.op not in ("or", "and")
                    new = phi(rest, e.val, new)
                under = TRUE
                other = [e.old for e in mine if e.name == (lo[0] if v == hi[0] else hi[0])]
                if other:
                    under = le(other[0], old) if v == hi[0] else le(old, other[0])  # the box is never empty
                if not plain and compare(atomise(new), atomise(fn_(old, c)), atomise(under))[0] == "ne":
                    # the conditions are not those of the addition and one more: only under all of them
                    under = and_(under, g)
                self.cmp("extent", e0.where, atomise(new), atomise(fn_(old, c)), msg, atomise(under))

    # ---- accumulation in the fields of records, labels
    def fields(self, qs):
        ctx = self.ctx
        groups = {}
        for e in self.r.ev("store"):
            if e.key.op == "str" and e.key.args[0] in ("n", "sumg", "x", "y") and e.old is not None:
                groups.setdefault((e.base, e.guard), {})[e.key.args[0]] = e
        for (b, g), d in groups.items():
            if any(e.val is q[k] for q in qs for k, e in d.items() if k in q):
                continue
            dl = {k: safe_sub(e.val, e.old) for k, e in d.items()}
            if len(dl) < 4 or any(v is None for v in dl.values()):
                continue
            e0 = d["n"]
            if dl["n"] is ONE:
                pix = [x for x in walk(dl["sumg"]) if x.op == "sel" and mentions(x, mk("sym", self.f.params[0]))]
                if dl["sumg"] not in pix:
                    ctx.unk("added", e0.where, "grey value not recognised")
                    continue
                k = dl["sumg"].args[1]
                imx = mk("sel", mk("sym", self.f.params[6]), string("imx"))
                lps = [l.idx for l in e0.loops]
                yx = [(y, x) for y in lps for x in lps if add(mul(y, imx), x) is k]
                if len(yx) != 1:
                    ctx.unk("added", e0.where, "pixel not recognised")
                    continue
                for nm, c in zip("yx", yx[0]):
                    self.cmp("added", e0.where, atomise(dl[nm]), atomise(mul(c, dl["sumg"])), "the %s moment gets the position times the grey value" % nm)
                self.box(b, g, e0, yx[0])
            else:
                # two records joined: every figure of the other is added
                for nm in ("x", "y", "sumg"):
                    want = rename(dl["n"], "n", nm)
                    if dl[nm] is want:
                        ctx.hold("joined", e0.where, "joining adds the %s of the other" % nm)
                    elif fieldset(dl[nm]) == {nm}:
                        ctx.unk("joined", e0.where, nm)
                    else:
                        self.cmp("joined", e0.where, atomise(dl[nm]), atomise(want), "joining two peaks adds the %s of the other one" % nm)
                self.box(b, g, e0, None)
        for q in qs:
            half = div(ONE, num(2))
            s = q["sumg"]
            for nm in "xy":
                if "sumg" in fieldset(s):
                    want = div(rename(s, "sumg", nm), s)
                    got = sub(q[nm], half)
                    if got is want:
                        ctx.hold("centre", self.w, "the reported %s is the moment over the grey-value sum plus one half" % nm)
                    elif fieldset(got) == {nm, "sumg"}:
                        self.cmp("centre", self.w, atomise(got), atomise(want), "the reported %s is the moment over the grey-value sum plus one half" % nm)
                    else:
                        ctx.unk("centre", self.w, nm)
            if {"xmin", "xmax", "ymin", "ymax"} & (fieldset(q["nx"]) | fieldset(q["ny"])):
                for nm, lo, hi in (("nx", "xmin", "xmax"), ("ny", "ymin", "ymax")):
                    fs = fieldset(q[nm])
                    if fs == {lo, hi}:
                        a = [m[0][0] for m, c in topoly(q[nm]).items() if len(m) == 1 and fieldset(m[0][0]) == {hi} and c == 1]
                        if a:
                            self.cmp("size", self.w, atomise(q[nm]), atomise(add(sub(a[0], rename(a[0], hi, lo)), ONE)), "%s is the extent of the peak" % nm)
                        else:
                            ctx.unk("size", self.w, nm)
                    elif fs and fs <= {"xmin", "xmax", "ymin", "ymax"}:
                        ctx.bad("size", self.w, "%s is the extent of the peak: found %s" % (nm, show(q[nm], 6)[:200]))

    def box(self, b, g, e0, loc):
        ctx = self.ctx
        for nm, ax, op in (("xmin", 1, smin), ("xmax", 1, smax), ("ymin", 0, smin), ("ymax", 0, smax)):
            es = [e for e in self.r.ev("store") if e.base is b and e.key.op == "str" and e.key.args[0] == nm and e.old is not None
                  and set(conjuncts(g)) <= set(conjuncts(e.guard))]
            msg = "the bounding box covers what is added (%s)" % nm
            if not es:
                if any(e.key.op == "str" and e.key.args[0] == nm for e in self.r.ev("store")):
                    ctx.unk("box", e0.where, msg)
                else:
                    ctx.bad("box", e0.where, msg + ": %s is never updated" % nm)
                continue
            new = old = es[0].old
            for e in es:
                new = phi(and_(*[x for x in conjuncts(e.guard) if x not in conjuncts(g)]), e.val, new)
            c = loc[ax] if loc else es[0].val
            if loc is None and fieldset(c) != {nm}:
                if not fieldset(c):
                    ctx.unk("box", e0.where, msg)
                    continue
            if loc is None and fieldset(c) != {nm}:
                ctx.bad("box", e0.where, msg + ": it is joined with %s" % show(c, 5)[:150])
                continue
            self.cmp("box", e0.where, atomise(new), atomise(op(old, c)), msg)

    # ---- labels
    def scan(self):
        """in the label variant every labelled pixel exceeds the threshold and keeps its label"""
        ctx = self.ctx
        img = mk("sym", self.f.params[0])
        for s in self.r.ev("store"):
            if s.base.op != "obj" or s.old is None or s.key.op in ("str", "slice", "num", "mkey", "seq"):
                continue
            pix = [x for x in walk(s.guard) if x.op == "sel" and x.args[1] is s.key and x is not s.old and mentions(x, img)]
            if not pix or s.val.op == "phi" or is_num(s.old):
                continue
            self.over_threshold(s.guard, pix[0], s)
            r = self.falsified(s.guard, s)
            msg = "a labelled pixel is not labelled again"
            if not any(mentions(c, s.old) for c in conjuncts(s.guard)) and not contains(s.guard, lambda x: x.op in ("in", "call", "unk", "ex")):
                ctx.bad("marked", s.where, msg + ": its label is not looked at")
                continue
            if r is True:
                ctx.hold("marked", s.where, msg)
            elif r is False:
                ctx.bad("marked", s.where, msg + ": label %s" % show(s.val, 4))
            else:
                ctx.unk("marked", s.where, msg)


def mentions_inf(t):
    return contains(t, lambda x: x.op in ("inf", "nan"))


def strip(t):
    """integer conversions of grey values do not matter"""
    return subst(t, {x: x.args[1] for x in walk(t) if x.op == "fn" and x.args[0] == "int" and x.args[1].op == "sym"})


def safe_sub(a, b):
    try:
        d = sub(a, b)
    except TooBig:
        return None
    return None if d is ZERO else d


def names_field(t, k):
    return contains(t, lambda x: x.op == "sel" and x.args[1].op == "str" and x.args[1].args[0] == k or
                    x.op in ("mu", "muout") and isinstance(x.args[1], tuple) and x.args[1][0] == "f" and x.args[1][2] == k)


def implied_by(g1, g):
    return set(conjuncts(g)) <= set(conjuncts(g1))


FSET = {"n", "sumg", "x", "y", "xmin", "xmax", "ymin", "ymax"}


def fieldset(t):
    s = set()
    for x in walk(t):
        if x.op == "sel" and x.args[1].op == "str" and x.args[1].args[0] in FSET:
            s.add(x.args[1].args[0])
        elif x.op in ("mu", "muout") and isinstance(x.args[1], tuple) and x.args[1][0] == "f" and x.args[1][2] in FSET:
            s.add(x.args[1][2])
    return s


def rename(t, a, b):
    mp = {}
    for x in walk(t):
        if x.op == "sel" and x.args[1].op == "str" and x.args[1].args[0] == a:
            mp[x] = mk("sel", x.args[0], string(b))
        elif x.op in ("mu", "muout") and isinstance(x.args[1], tuple) and x.args[1][0] == "f" and x.args[1][2] == a:
            mp[x] = mk(x.op, x.args[0], ("f", x.args[1][1], b))
    return subst(t, mp)
