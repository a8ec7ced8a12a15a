"""C15: missing entries are never used as data."""
import ast

from ..rulekit import *
from .c10 import ONE_CAM, MANY
from .c18 import Links, OPS, marker

TECHNIQUE = ("marker analysis over the value graph: every element access whose index is a possibly missing entry (field or result that can hold a marker), and every coordinate taken as a ray or "
             "converted, is checked for a dominating test that excludes the marker, by entailment from its path condition; every constant stored into or compared with such a field is "
             "checked against its marker")
FUNCS = [("track", "trackcorr_c_loop"), ("track", "trackback_c"), ("track", "register_closest_neighbs"), ("track", "assess_new_position"), ("track", "add_particle"),
         ("tracking_frame_buf", "Frame.target_positions_for_camera"), ("correspondences", "take_best_candidates"), ("correspondences", "py_correspondences"),
         ("correspondences", "correspondences"), ("sortgrid", "sortgrid")]
FIELDS = {"p": ("CORRES_NONE",), "prev_frame": ("PREV_NONE",), "next_frame": ("NEXT_NONE",), "ftnr": ("TR_UNUSED",), "tnr": ("TR_UNUSED", "CORRES_NONE")}
PLAIN = {"sym", "sel", "obj", "call", "mu", "muout", "snap", "row"}
CMP = ("le0", "lt0", "eq0", "eq", "not")


def check(ctx):
    ctx.rule("Every element access through a link (prev_frame, next_frame), a number of a target or particle (p, ftnr, candidate numbers, result of a nearest neighbour search) lies under a condition that "
             "excludes the marker for a missing entry, as do the coordinates from which rays are traced or which are converted; an entry of a candidate list is used only if the list is not empty; "
             "constants stored into these fields or compared with them are their markers.")
    for mod, q in FUNCS:
        f = ctx.func(mod, q)
        if f is None:
            ctx.unk("anchor", q, "not found")
            continue
        r = ctx.run(mod, q, rec_reads=True, opaque=tuple(o for o in OPS + ONE_CAM + MANY if o.split(".")[-1] != f.name), effects={"candsearch_in_pix_rest": ("p",)})
        if r is not None:
            Missing(ctx, f, r).go()
    position(ctx)
    new_position(ctx)
    results(ctx)
    defaults(ctx)


def plain(t):
    return all(x.op in PLAIN or x.op == "fn" and x.args[0] in ("flip", "sorted") for x in spine(t))


def elem(t):
    return t.op == "sel" and t.args[1].op != "str"


def spine(t):
    """the chain of accesses down to the object a value is read from"""
    while True:
        yield t
        if t.op in ("sel", "snap", "row"):
            t = t.args[0]
        else:
            return


def minus(t):
    """value of a negative constant"""
    if t.op == "num":
        return t.args[0] if t.args[0] < 0 else None
    return None


def markers_of(ctx, name):
    """negative constants a routine may return as, or in, its result"""
    f = next((m.funcs[name] for m in ctx.pkg.mods.values() if name in m.funcs and not m.name.startswith("spec_")), None)
    if f is None:
        return None
    r = ctx.run(f.mod.name, name)
    if r is None:
        return None
    ret = r.ret()
    out = negs(ret)
    for x in walk(ret):
        if x.op == "muout" and isinstance(x.args[1], str):
            for e in r.ev("assign"):
                if e.d["name"] == x.args[1]:
                    out |= negs(e.d["val"])
    return out


def negs(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        v = minus(x)
        if v is not None:
            out.add(x)
        elif x.op == "phi":
            todo += x.args[1:]
        elif x.op in ("seq", "mu", "muout", "fill", "put"):
            todo += [y for y in kids(x)]
    return out


class Missing:
    def __init__(self, ctx, f, r):
        self.ctx, self.f, self.r = ctx, f, r
        self.L = Links(ctx, f, r, "next_frame", "prev_frame")
        self.corr = f.mod.name.endswith("correspondences")
        self.regs = [e for e in r.ev("store") if e.d["key"].op == "str" and e.d["key"].args[0] == "inlist" and e.d["val"].op != "num"]

    def go(self):
        done = {}
        for e in self.r.ev("read", "store"):
            k = e.d["key"]
            if k.op in ("num", "str", "slice", "seq"):
                continue
            k = self.L.label(k)
            kd = self.kind(k)
            if kd is None:
                continue
            g = and_(*[self.L.label(c) for c in conjuncts(e.guard)])
            done.setdefault((kd[0], k.id, g.id), (e, k, kd, g))
        for (name, _, _), (e, k, kd, g) in done.items():
            self.one(e, k, kd, g)
        self.constants()

    def kind(self, k):
        """(name, marker terms) of a possibly missing index"""
        if elem(k):
            n = k.args[0].args[1].args[0] if k.args[0].op == "sel" and k.args[0].args[1].op == "str" else None
            if n == "p" and plain(k):
                ms = [marker(self.ctx, "CORRES_NONE")]
                if self.corr:
                    ms.append(num(-2))
                return "p", ms
            if n == "linkdecis":
                return "linkdecis", None
        if k.op == "sel" and k.args[1].op == "str" and k.args[1].args[0] in ("prev_frame", "next_frame", "ftnr"):
            n = k.args[1].args[0]
            return n, [marker(self.ctx, FIELDS[n][0])]
        if k.op == "phi":
            a = [self.kind(x) for x in k.args[1:]]
            if all(x is not None for x in a) and len({x[0] for x in a}) == 1:
                return a[0]
            if any(x is not None and x[0] == "linkdecis" for x in a):
                return "linkdecis", None
        c = self.cname(k)
        if c in ("nearest_neighbour_pix", "candsearch_in_pix"):
            ms = markers_of(self.ctx, c)
            return (c, sorted(ms, key=lambda x: x.id)) if ms else None
        if elem(k) and elem(k.args[0]) and k.args[0].args[0].op == "sym" and self.f.name == "add_particle":
            return "candidate", [marker(self.ctx, "TR_UNUSED")]
        if any(x.op == "after" and x.args[0] == "candsearch_in_pix_rest" for x in spine(k)):
            return "candsearch_in_pix_rest", [marker(self.ctx, "TR_UNUSED")]
        if elem(k) and any(x.op == "call" and x.args[0] == "sort" for x in spine(k)):
            return "linkdecis", None
        return None

    @staticmethod
    def cname(k):
        x = k
        while elem(x):
            x = x.args[0]
        return x.args[0].split(".")[-1] if x.op == "call" else None

    def free(self, c, k, rest):
        """an alternative of the condition tests only another link, not this one, and is possible"""
        if c.op != "or" or any(k in set(walk(x)) for x in rest):
            return False
        for d in kids(c):
            if k in set(walk(d)) or d.op not in ("eq0", "le0", "lt0", "not"):
                continue
            b = d.args[0] if d.op == "not" else d
            if b.op not in ("eq0", "le0", "lt0"):
                continue
            at = [a for m in tm.topoly(b.args[0]) for a, e in m]
            names = [fieldname(x) or (x.args[1][-1] if x.op == "mu" and isinstance(x.args[1], tuple) else None) for x in at]
            if at and all(n in ("prev_frame", "next_frame") for n in names) and not tm.unsat(and_(d, *rest), 2):
                return True
        return False

    def invariant(self, g):
        """a candidate list is filled only where the candidates are registered"""
        if not self.regs or not any(x.op == "sel" and fieldname(x) == "inlist" for x in walk(g)):
            return g
        alts = []
        for e in self.regs:
            alts.append(and_(*[self.L.label(c) for c in conjuncts(e.guard)]))
        return and_(g, or_(*alts)) if alts else g

    def one(self, e, k, kd, g):
        name, ms = kd
        wh = where(self.f, e.node)
        tag = "%s:%s:%s" % (self.f.name, name, ast.unparse(e.node)[:50])
        if name == "linkdecis":
            ok = [c for c in conjuncts(g) if any(fieldname(x) in ("inlist", "next_frame") for x in walk(c) if x.op == "sel")]
            n = self.count(g)
            if n:
                self.ctx.hold(tag, wh, "candidate used only if the list is not empty")
            elif ok:
                self.ctx.unk(tag, wh, "candidate list")
            elif all(known_cond(c) for c in conjuncts(g)):
                self.ctx.bad(tag, wh, "the first candidate is used without a test whether there is one")
            else:
                self.ctx.unk(tag, wh, "candidate list")
            return
        if any(m is None for m in ms) or not plain(k) and name in FIELDS:
            self.ctx.unk(tag, wh, "marker")
            return
        if name == "candsearch_in_pix_rest":
            n = next((c for c in walk(g) if c.op == "call" and c.args[0].split(".")[-1] == "candsearch_in_pix_rest"), None)
            i = k.args[1] if elem(k) else None
            if n is not None and i is not None and (implies(g, ge(n, add(i, num(1))), 2) or implied(g, ge(n, add(i, num(1)))) is True):
                self.ctx.hold(tag, wh, "index used only if the search found a candidate")
                return
            if n is not None and any(n in set(walk(c)) for c in conjuncts(g)):
                self.ctx.unk(tag, wh, "number of candidates") if any(c.op not in CMP for c in conjuncts(g) if n in set(walk(c))) else \
                    self.ctx.bad(tag, wh, "the target number is used although the search may have found none")
                return
        miss = []
        for m in ms:
            lit = ne(k, m)
            v = True if implies(g, lit, 2) else implied(g, lit)
            if v is not True:
                g2 = self.invariant(g)
                if g2 is not g and implied(g2, lit) is True:
                    v = True
            if v is not True:
                miss.append((m, v))
        if not miss:
            self.ctx.hold(tag, wh, "index used only if it is not the marker of a missing entry")
            return
        ks = set(walk(k))
        own = [c for c in conjuncts(g) if k in set(walk(c))]
        hard = [c for c in own if c.op not in CMP]
        rel = [c for c in conjuncts(g) if any(x.op == "sel" and fieldname(x) == "inlist" for x in walk(c))]
        if name in ("prev_frame", "next_frame") and rel and self.count(g) and any(
                e2.d["key"].op == "str" and e2.d["key"].args[0] == name and minus(e2.d["val"]) is None and self.count(and_(*[self.L.label(c) for c in conjuncts(e2.guard)]))
                for e2 in self.r.ev("store")):
            self.ctx.hold(tag, wh, "link of a particle with candidates, set from its list")
            return
        if name in ("prev_frame", "next_frame") and rel:
            self.ctx.unk(tag, wh, "index may be missing")
        elif len(hard) == 1 and name in ("prev_frame", "next_frame") and self.free(hard[0], k, [c for c in conjuncts(g) if c is not hard[0]]):
            self.ctx.bad(tag, wh, "the link is used where only the other link of the particle was tested")
        elif hard or not all(known_cond(self.without(c, k)) for c in conjuncts(g)) or self.shorter(g, k):
            self.ctx.unk(tag, wh, "index may be missing")
        else:
            self.ctx.bad(tag, wh, "index is used without a test that excludes the marker %s of a missing entry" % show(miss[0][0]))

    @staticmethod
    def without(c, k):
        """a condition with the index, and the object it is read from, taken as known"""
        b = list(spine(k))[-1]
        return tm.subst(c, {k: isym("$index"), b: mk("sym", "$base")})

    @staticmethod
    def shorter(g, k):
        """lists of candidates end with a missing entry, left out by the range of the index"""
        x = k
        while x.op == "sel" and not elem(x):
            x = x.args[0]
        if not elem(x):
            return False
        n = [y for y in walk(g) if y.op == "len" and y.args[0] is x.args[0]]
        return any(implied(g, ge(y, add(x.args[1], num(2)))) is True for y in n)

    def count(self, g):
        for c in conjuncts(g):
            for x in walk(c):
                if x.op == "sel" and fieldname(x) == "inlist" and (implies(c, gt(x, num(0)), 2)):
                    return True
        return False

    def constants(self):
        """constants stored into and compared with the fields"""
        f = self.f
        done = set()
        for e in self.r.ev("store"):
            k = e.d["key"]
            n = k.args[0] if k.op == "str" else None
            b = self.L.label(e.d["base"])
            if n not in FIELDS:
                n = fieldname(b) if b.op == "sel" and fieldname(b) in FIELDS else None
            if n is None:
                continue
            v = e.d["val"]
            ms = [marker(self.ctx, x) for x in FIELDS[n]]
            for x in negs(v):
                t = (n, x, where(f, e.node))
                if t in done:
                    continue
                done.add(t)
                ok = x in ms or n == "p" and self.corr
                tag = "%s:%s=%s" % (f.name, n, show(x))
                if None in ms:
                    self.ctx.unk(tag, where(f, e.node), "marker")
                elif ok:
                    self.ctx.hold(tag, where(f, e.node), "missing entry written with its marker")
                else:
                    self.ctx.bad(tag, where(f, e.node), "%s is set to %s, its marker is %s" % (n, show(x), show(ms[0])))
        for e in self.r.events:
            for c in walk(e.guard):
                if c.op not in ("eq", "eq0"):
                    continue
                for n, x, m in tested(c):
                    m0 = [marker(self.ctx, y) for y in FIELDS[n]]
                    t = ("eq", n, x)
                    if t in done:
                        continue
                    done.add(t)
                    tag = "%s:%s==%s" % (f.name, n, show(x))
                    if None in m0 or n == "p" and self.corr:
                        continue
                    if x in m0:
                        self.ctx.hold(tag, where(f, e.node), "compared with its marker")
                    else:
                        self.ctx.bad(tag, where(f, e.node), "%s is compared with %s, its marker is %s" % (n, show(x), show(m0[0])))


def show(t):
    return str(t)


def known_cond(c):
    return not any(x.op in ("unk", "opaque", "havoc") for x in walk(c)) and not pit.opaque(c)


def tested(c):
    """(field, constant) of an equality test of a field with a negative constant"""
    out = []
    t = c.args[0]
    rest = c.args[1] if len(c.args) > 1 else ZERO
    d = t if rest is ZERO else sub(t, rest)
    for n in FIELDS:
        for x in walk(d):
            y = x.args[0] if n == "p" and elem(x) else x
            if y.op == "sel" and y.args[1].op == "str" and y.args[1].args[0] == n and (n != "p" or y is not x):
                v = solve(d, x)
                if v is not None and minus(v) is not None:
                    out.append((n, v, None))
    return out


def solve(d, x):
    """the constant at which a linear term in x vanishes"""
    a = tm.subst(d, {x: ZERO})
    b = sub(tm.subst(d, {x: num(1)}), a)
    if a.op != "num" or b.op != "num" or b is ZERO:
        return None
    v = div(neg(a), b)
    return v if v.op == "num" else None


def coord_marker(ctx):
    m = ctx.pkg.mods.get("constants")
    for n in (m.tree.body if m is not None else ()):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "COORD_UNUSED" for t in n.targets):
            try:
                return num(float(ast.literal_eval(n.value)))
            except (ValueError, TypeError):
                return None
    return None


def position(ctx):
    """rays are traced, and intersected, only from cameras that see the point"""
    f = ctx.func("orientation", "point_position")
    cu = coord_marker(ctx)
    if f is None or cu is None or len(f.params) < 4:
        ctx.unk("anchor", "point_position", "not found")
        return
    r = ctx.run("orientation", "point_position", opaque=("ray_tracing", "skew_midpoint"))
    if r is None:
        return
    tg = mk("sym", f.params[0])
    used = lambda i, g: any(implies(g, ne(r.elem(tg, i, num(k)), cu), 2) or implied(g, ne(r.elem(tg, i, num(k)), cu)) is True for k in (0, 1))
    for e in r.ev("call"):
        n = e.d["name"].split(".")[-1]
        if n not in ("ray_tracing", "skew_midpoint"):
            continue
        idx = {x.args[1] for a in e.d["args"].values() if isinstance(a, T) for x in walk(a) if elem(x) and x.args[0] is tg}
        idx |= {i for l in e.loops for i in [l.idx] if isinstance(i, T)}
        idx = {i for i in idx if i.op != "num"} or {i for i in idx}
        wh = where(f, e.node)
        sel = any(x.op == "comp" for a in list(e.d["args"].values()) + [e.guard] + [y for l in e.loops for y in (l.lo, l.hi)] if isinstance(a, T) for x in walk(a))
        if sel:
            ctx.unk("point_position:%s" % n, wh, "cameras selected beforehand")
            continue
        for i in sorted(idx, key=lambda x: x.id):
            if not any(any(i is y for y in walk(a)) for a in e.d["args"].values() if isinstance(a, T)) and n == "ray_tracing":
                continue
            tag = "point_position:%s:%s" % (n, show(i)[:30])
            if used(i, e.guard):
                ctx.hold(tag, wh, "camera used only if it sees the point")
            elif all(known_cond(c) for c in conjuncts(e.guard)) and not any(fieldlike(c, tg) for c in conjuncts(e.guard)):
                ctx.bad(tag, wh, "a camera is used without a test whether it sees the point")
            else:
                cs = [c for c in conjuncts(e.guard) if fieldlike(c, tg)]
                if n == "ray_tracing" and cs and all(c.op in CMP for c in cs) and all(known_cond(c) for c in conjuncts(e.guard)):
                    ctx.bad(tag, wh, "a camera is used although it may not see the point")
                elif n == "skew_midpoint" and all(known_cond(c) for c in conjuncts(e.guard)) and all(c.op in CMP for c in cs):
                    ctx.bad(tag, wh, "the ray of a camera is intersected although the camera may not see the point")
                else:
                    ctx.unk(tag, wh, "condition")


def fieldlike(c, tg):
    return any(x is tg for x in walk(c))


def new_position(ctx):
    """coordinates of missing detections are not converted"""
    f = ctx.func("track", "assess_new_position")
    cu = coord_marker(ctx)
    if f is None or cu is None:
        return
    r = ctx.run("track", "assess_new_position", opaque=tuple(o for o in OPS + ONE_CAM + MANY if o != "assess_new_position"), effects={"candsearch_in_pix_rest": ("p",)})
    if r is None:
        return
    for e in r.ev("call"):
        if e.d["name"].split(".")[-1] != "pixel_to_metric":
            continue
        a = list(e.d["args"].values())[:2]
        wh = where(f, e.node)
        tag = "assess_new_position:convert"
        if any(implies(e.guard, ne(x, cu), 3) or implied(e.guard, ne(x, cu)) is True for x in a):
            ctx.hold(tag, wh, "only coordinates of detections are converted")
            continue
        if not any(x.op in ("mu", "muout", "fill") or x is cu for y in a for x in walk(y)):
            ctx.hold(tag, wh, "only coordinates of detections are converted")
            continue
        at = {x for y in a for x in atoms_of(y)}
        idx = {x for l in e.loops for x in [l.idx] if isinstance(l.idx, T)}
        odd = [c for c in conjuncts(e.guard) if not atoms_of(c) <= at and not any(x in idx for x in walk(c))]
        odd += [c for c in conjuncts(e.guard) if any(x.op == "after" for x in walk(tm.subst(c, {y: ZERO for y in a})))]
        odd += [c for c in conjuncts(e.guard) if c.op not in CMP and c.op not in ("or", "and")]
        if odd:
            ctx.unk(tag, wh, "condition")
        else:
            ctx.bad(tag, wh, "the marker of a missing coordinate may be converted")


def results(ctx):
    """searches report a missing result with a marker no target has"""
    for name, want in (("nearest_neighbour_pix", "PT_UNUSED"), ("candsearch_in_pix", "TR_UNUSED")):
        f = next((m.funcs[name] for m in ctx.pkg.mods.values() if name in m.funcs and not m.name.startswith("spec_")), None)
        ms = markers_of(ctx, name)
        if f is None or ms is None:
            ctx.unk("result:" + name, name, "not found")
            continue
        w = marker(ctx, want)
        if not ms:
            init = [e.d["val"] for e in ctx.run(f.mod.name, name).ev("assign") if not e.loops and any(x.op == "muout" and x.args[1] == e.d["name"] for x in [ctx.run(f.mod.name, name).ret()])]
            if init and all(v.op == "num" for v in init):
                ctx.bad("result:" + name, where(f), "a missing result can not be told from a target")
            else:
                ctx.unk("result:" + name, where(f), "no marker found")
        elif ms == {w}:
            ctx.hold("result:" + name, where(f), "missing result reported as %s" % show(w))
        else:
            ctx.bad("result:" + name, where(f), "missing result reported as %s instead of %s" % (", ".join(map(show, ms)), show(w)))


def defaults(ctx):
    """new entries start as missing"""
    for mod, cls, fld, name in (("tracking_frame_buf", "Target", "tnr", "TR_UNUSED"), ("tracking_frame_buf", "Target", "pnr", "PT_UNUSED"),
                                ("tracking_frame_buf", "Pathinfo", "prev_frame", "PREV_NONE"), ("tracking_frame_buf", "Pathinfo", "next_frame", "NEXT_NONE")):
        m = ctx.pkg.mods.get(mod)
        c = m.classes.get(cls) if m is not None else None
        n = next((s for s in (c.node.body if c is not None else ()) if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == fld), None)
        if n is None or n.value is None:
            ctx.unk("default:%s.%s" % (cls, fld), mod, "no default")
            continue
        w = marker(ctx, name)
        v = None
        try:
            v = num(int(ast.literal_eval(n.value)))
        except (ValueError, TypeError):
            if isinstance(n.value, ast.Name):
                v = marker(ctx, n.value.id)
        wh = "openptv_python/%s.py:%d" % (mod, n.lineno)
        if v is None or w is None:
            ctx.unk("default:%s.%s" % (cls, fld), wh, "default")
        elif v is w:
            ctx.hold("default:%s.%s" % (cls, fld), wh, "starts as missing")
        else:
            ctx.bad("default:%s.%s" % (cls, fld), wh, "starts as %s, the marker is %s" % (show(v), show(w)))
