"""C12: the connected-component spot finder stays inside the image and the search window."""
import math
import random
from fractions import Fraction

from ..rulekit import *

TECHNIQUE = ("interval and index-range analysis: the index terms of every image access, its guard and the bounds of the loops around it are "
             "extracted from the source and evaluated over small image shapes and search windows, with the pending pixels as a fixpoint; "
             "conditions on grey values are taken as satisfiable")
ASSUMPTIONS = ["conditions on image content do not restrict the position of a pixel (no border is cleared first)",
               "the pixels waiting to be expanded are pixels that were marked as used"]
M, Q = "segmentation", "targ_rec"


def check(ctx):
    ctx.rule("For every access to the image or its working copy, the row and column index, the guard and the enclosing loop bounds (after "
             "clipping of the window) must give, for every image shape, configured size and search window, a row in [0, rows) and a column in "
             "[0, columns); seeds must in addition lie in the search window. Pixels waiting to be expanded are those marked under the guard of "
             "the marking store, closed under the expansion step. target_recognition hands the window it is given, or the whole image, to the search.")
    f = ctx.func(M, Q)
    if f is None or len(f.params) != 8:
        return ctx.unk("anchor", Q, "not found")
    r = ctx.run(M, Q, rec_reads=True)
    if r is None:
        return
    Bounds(ctx, f, r).check()
    window(ctx, f)


def window(ctx, f):
    """the search window given to target_recognition is the one that is searched; by default the whole image"""
    g = ctx.func(M, "target_recognition")
    if g is None or len(g.params) != 6:
        return ctx.unk("window", "target_recognition", "not found")
    r = ctx.run(M, "target_recognition", opaque=(Q,))
    if r is None:
        return
    cp = mk("sym", g.params[3])
    calls = [e for e in r.ev("call") if e.d["name"].split(".")[-1] == Q]
    if not calls:
        return ctx.unk("window", where(g), "the search is not recognised")
    for e in calls:
        for i, (nm, par, k) in enumerate((("xmin", 4, 0), ("xmax", 4, 1), ("ymin", 5, 0), ("ymax", 5, 1))):
            got = e.d["args"].get(f.params[2 + i])
            sub_ = mk("sym", g.params[par])
            none = eq(sub_, NONE)
            if got is None:
                ctx.unk("window", e.where, "%s of the search" % nm)
                continue
            size = mk("sel", cp, string("im" + nm[0]))
            for given, want, msg in ((not_(none), mk("sel", sub_, num(k)), "the search gets %s of the window" % nm), (none, size if k else ZERO, "without a window %s is that of the whole image" % nm)):
                if tm.deep_assume(e.guard, given) is FALSE:
                    continue
                t = tm.deep_assume(got, given)
                if t is want:
                    ctx.hold("window", e.where, msg)
                elif mentions(t, mk("sym", g.params[9 - par])) and not mentions(t, sub_):
                    ctx.bad("window", e.where, msg + ": found %s" % show(t, 5))
                elif any(mentions(t, x) for x in (mk("sym", g.params[0]),)) or t.op in ("min", "max", "phi", "fn"):
                    ctx.unk("window", e.where, msg)
                else:
                    ctx.same("window", e.where, t, want, msg)


class Bounds:
    def __init__(self, ctx, f, r):
        self.ctx, self.f, self.r = ctx, f, r
        p = f.params
        s = lambda n: mk("sym", n)
        self.img = s(p[0])
        self.par = {"xmin": s(p[2]), "xmax": s(p[3]), "ymin": s(p[4]), "ymax": s(p[5]),
                    "imx": mk("sel", s(p[6]), string("imx")), "imy": mk("sel", s(p[6]), string("imy"))}

    # ---- which arrays are images
    def image(self, b):
        """1: an image, 2: a row of an image (returns the row index too)"""
        if b is self.img:
            return True
        if b.op == "obj":
            o = self.r.ip.objs.get(b)
            c = o.content if o else None
            return c is not None and self.imageval(c)
        return self.imageval(b)

    def imageval(self, b, depth=6):
        if depth == 0:
            return False
        if b is self.img:
            return True
        if b.op in ("mu", "muout"):
            k = b.args[1]
            if isinstance(k, tuple) and k[0] == "i":
                o = next((x for x in self.r.ip.objs if x.id == k[1]), None)
                return o is not None and self.image(o)
            return False
        if b.op == "obj":
            return self.image(b)
        if b.op == "fn" and b.args[0] in ("arrcopy", "copy", "astype", "array", "asarray", "int", "float", "pint", "pfloat"):
            return self.imageval(b.args[1], depth - 1)
        if b.op in ("upd", "setitem", "put", "store"):
            return self.imageval(b.args[0], depth - 1)
        if b.op == "phi":
            return self.imageval(b.args[1], depth - 1)
        return False

    def accesses(self):
        """(row index, column index, event) of every access to a pixel"""
        out, bad = [], []
        for e in self.r.events:
            if e.kind not in ("read", "store"):
                continue
            if e.key.op == "str":
                continue
            b, row = e.base, None
            if b.op in ("sel", "row"):
                b, row = b.args[0], b.args[1]
            if row is not None and row.op == "str" or not self.image(b):
                continue
            if row is not None:
                out.append((row, e.key, e))
            elif e.key.op == "seq" and len(elems(e.key)) == 2:
                out.append((elems(e.key)[0], elems(e.key)[1], e))
            elif e.kind == "store":
                bad.append(e)
        return out, bad

    def check(self):
        ctx = self.ctx
        acc, bad = self.accesses()
        if bad:
            return ctx.unk("range", bad[0].where, "an area of the image is written at once")
        if not acc:
            return ctx.unk("anchor", where(self.f), "no pixel access recognised")
        infos = []
        for y, x, e in acc:
            i = self.prepare(y, x, e)
            if i is None:
                ctx.unk("range", e.where, "access to row %s, column %s" % (show(y, 3), show(x, 3)))
            else:
                infos.append(i)
        seeds = [i for i in infos if not i["pend"] and i["e"].kind == "store"]
        if not seeds or not any(i["pend"] for i in infos):
            ctx.unk("anchor", where(self.f), "no seed pixel or no expansion recognised")
        fails = {}
        n = 0
        for par in self.configs():
            n += 1
            base = {self.par[k]: par[k] for k in self.par}
            base[None] = par
            pend = self.run([i for i in infos if not i["pend"]], base, par, [None], fails)
            todo, seen = list(pend), set(pend)
            while todo:
                new = self.run([i for i in infos if i["pend"]], base, par, todo, fails)
                todo = [p for p in new if p not in seen]
                seen |= set(todo)
        ctx.evals = n
        for i in infos:
            wh = i["e"].where
            m = "access to row %s, column %s" % (show(i["y"], 3), show(i["x"], 3))
            w = fails.get(id(i))
            if w:
                ctx.bad("range" if w[0] == "image" else "window", wh, "%s leaves the %s: %s" % (m, w[0], w[1]))
            elif i["unk"] and not i["ok"]:
                ctx.unk("range", wh, m)
            elif not i["ok"]:
                ctx.unk("range", wh, m + ": never reached")
            else:
                ctx.hold("range", wh, m + " stays inside the image")

    def configs(self):
        rnd = random.Random(5)
        shapes = [(4, 4), (3, 5), (1, 1), (2, 3), (5, 3), (6, 4), (3, 1), (1, 4)]
        for k in range(260 if self.ctx.tier == "quick" else 4000):
            h, w = shapes[k % len(shapes)] if k % 3 else (rnd.randint(1, 6), rnd.randint(1, 6))
            d = {"h": h, "w": w}
            for n, m in (("imx", w), ("imy", h)):
                d[n] = m + rnd.choice((0, 0, 1, -1, 4, 2)) if m > 1 else m + rnd.choice((0, 1, 3))
            for lo, hi, m in (("xmin", "xmax", w), ("ymin", "ymax", h)):
                c = rnd.randint(0, 5)
                d[lo] = (0, 1, -1, -3, m - 1, rnd.randint(0, m))[c]
                d[hi] = rnd.choice((m, m - 1, m + 1, m + 4, m - 2, rnd.randint(0, m), m, d[lo] + 1))
            yield d

    # ---- evaluation
    def prepare(self, y, x, e):
        idx, loops = set(), []
        for l in e.loops:
            if l.idx is None:
                continue
            idx.add(l.idx)
            if l.hi is None or l.lo is None or l.hi.op == "inf" or show(l.hi, 1) == "inf":
                loops.append((l.idx, None, None))
            else:
                loops.append((l.idx, l.lo, l.hi))
        free = {}
        for nm, t in (("y", y), ("x", x)):
            at = [a for a in self.leaves(t) if a not in idx and self.param(a) is None]
            if len(set(at)) > 1:
                return None
            free[nm] = at[0] if at else None
            if any(a in idx and any(a is i and lo is None for i, lo, hi in loops) for a in self.leaves(t)):
                return None
        if (free["y"] is None) != (free["x"] is None):
            return None
        need = [a for a in self.leaves(y) + self.leaves(x) if a in idx]
        cs = [c for c in conjuncts(e.guard)]
        return {"y": y, "x": x, "e": e, "loops": [l for l in loops if l[1] is not None], "pend": free["y"] is not None, "ay": free["y"],
                "ax": free["x"], "guard": cs, "ok": 0, "unk": 0, "need": need}

    def leaves(self, t):
        if self.param(t) is not None:
            return [t]
        if t.op in ("poly", "min", "max", "num", "phi") or t.op == "fn" and t.args[0] in ("int", "floor", "abs", "clip"):
            out = []
            for k in (t.args[1:] if t.op == "phi" else kids(t)):
                out.extend(self.leaves(k))
            return out
        return [t]

    def param(self, t):
        for k, v in self.par.items():
            if t is v:
                return k
        if t.op == "fn" and t.args[0] in ("shp", "len", "shape") or t.op in ("shp", "len"):
            a = t.args[1:] if t.op == "fn" else t.args
            if a and isinstance(a[0], T) and self.image(a[0]):
                if len(a) == 1:
                    return "h"
                k = a[1]
                k = int(k.args[0]) if isinstance(k, T) and k.op == "num" else k
                return {0: "h", 1: "w", -1: "w", -2: "h"}.get(k)
        if t.op == "sel" and t.args[1].op == "num" and t.args[0].op in ("fn", "attr", "sel"):
            b = t.args[0]
            if b.op == "sel" and b.args[1] is string("shape") and self.image(b.args[0]) or \
                    b.op == "fn" and b.args[0] == "shape" and self.image(b.args[1]):
                return {0: "h", 1: "w"}.get(int(t.args[1].args[0]))
        return None

    def run(self, infos, base, par, pend, fails):
        """evaluates the accesses for the given pending pixels; the pixels marked"""
        marked = []
        for i in infos:
            for p in pend:
                env = dict(base)
                if p is not None:
                    env[i["ay"]], env[i["ax"]] = p
                for en in self.iterate(i["loops"] if p is None else [], env):
                    memo = {}
                    vals = [self.ev(c, en, memo) for c in i["guard"]]
                    if any(v is False for v in vals):
                        continue
                    y, x = self.ev(i["y"], en, memo), self.ev(i["x"], en, memo)
                    if y is None or x is None:
                        i["unk"] += 1
                        continue
                    i["ok"] += 1
                    y, x = int(y), int(x)
                    inside = 0 <= y < par["h"] and 0 <= x < par["w"]
                    if not inside:
                        fails.setdefault(id(i), ("image", "row %d, column %d of an image of %d rows and %d columns with %s" % (
                            y, x, par["h"], par["w"], ", ".join("%s=%d" % (k, par[k]) for k in ("xmin", "xmax", "ymin", "ymax", "imx", "imy")))))
                    elif i["e"].kind == "store":
                        marked.append((y, x))
                        if p is None and not (par["xmin"] <= x <= par["xmax"] and par["ymin"] <= y <= par["ymax"]):
                            fails.setdefault(id(i), ("search window", "row %d, column %d with %s" % (
                                y, x, ", ".join("%s=%d" % (k, par[k]) for k in ("xmin", "xmax", "ymin", "ymax")))))
        return list(dict.fromkeys(marked))

    def iterate(self, loops, env):
        if not loops:
            yield env
            return
        (ix, lo, hi), rest = loops[0], loops[1:]
        a, b = self.ev(lo, env, {}), self.ev(hi, env, {})
        if a is None or b is None:
            return
        for k in range(math.ceil(a), min(math.ceil(b), math.ceil(a) + 30)):
            en = dict(env)
            en[ix] = k
            yield from self.iterate(rest, en)

    def ev(self, t, env, memo):
        if t in env:
            return env[t]
        k = t.id
        if k in memo:
            return memo[k]
        memo[k] = r = self._ev(t, env, memo)
        return r

    def _ev(self, t, env, memo):
        op = t.op
        ev = lambda x: self.ev(x, env, memo)
        if op == "num":
            return t.args[0]
        if op == "bool":
            return t.args[0]
        if op == "and":
            vs = [ev(x) for x in t.args]
            return False if False in vs else None if None in vs else True
        if op == "or":
            vs = [ev(x) for x in t.args]
            return True if True in vs else None if None in vs else False
        if op == "not":
            v = ev(t.args[0])
            return None if v is None else not v
        if op in ("lt0", "le0", "eq0"):
            v = ev(t.args[0])
            return None if v is None else v < 0 if op == "lt0" else v <= 0 if op == "le0" else v == 0
        if op == "phi":
            c = ev(t.args[0])
            if c is None:
                a, b = ev(t.args[1]), ev(t.args[2])
                return a if a is not None and a == b else None
            return ev(t.args[1] if c else t.args[2])
        if op in ("min", "max"):
            vs = [ev(x) for x in t.args]
            return None if None in vs else (min if op == "min" else max)(vs)
        if op == "poly":
            s = Fraction(0)
            for m, c in topoly(t).items():
                v = Fraction(c)
                for a, n in m:
                    w = ev(a)
                    if w is None or n < 0 and w == 0 or Fraction(n).denominator != 1:
                        return None
                    v *= Fraction(w) ** int(n)
                s += v
            return s
        if op == "fn" and t.args[0] in ("int", "pint", "floor"):
            v = ev(t.args[1])
            return None if v is None else math.floor(v) if t.args[0] == "floor" else int(v)
        if op == "fn" and t.args[0] == "abs":
            v = ev(t.args[1])
            return None if v is None else abs(v)
        p = self.param(t)
        return env[None].get(p) if p is not None else None
