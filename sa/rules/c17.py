"""C17: links respect the velocity, acceleration and angle limits."""
from ..rulekit import *

TECHNIQUE = ("guard analysis: the path condition of every call that registers a link is decomposed into limit tests; the tested quantities are traced to positions "
             "and frames of the buffer (dataflow with affine time bookkeeping) and the registered quality is compared with the tested quantities by exact algebra")
NOTE = "The bound on the displacement between the frames of a link that is only continued by a later candidate comes from the search box (C26), not from a test."
S = lambda n: mk("sym", n)
OP = ("sorted_candidates_in_volume", "assess_new_position", "point_position", "point_to_pixel", "angle_acc", "add_particle", "Pathinfo.register_link_candidate",
      "vec_diff_norm", "FrameBuf.write_frame_from_start", "FrameBuf.read_frame_at_end", "FrameBufBase.fb_next", "FrameBufBase.fb_prev", "sort")
AX = "xyz"


def check(ctx):
    ctx.rule("For every call registering a link candidate: on each axis the path condition contains a test of one position of a frame minus one of the frame before "
             "against both velocity limits of that axis; it entails that acceleration and angle, averages of the same angle_acc results, are below their own "
             "limits or ten times the acceleration is; angle_acc gets a position, and a predicted and an actual position one step later; the quality is the sum of "
             "displacement, acceleration and angle over their own limits; candidate and owner are those whose positions were tested.")
    for q, back in (("trackcorr_c_loop", False), ("trackback_c", True)):
        f = ctx.func("track", q)
        if f is None:
            ctx.unk("anchor", q, "not found")
            continue
        r = ctx.run("track", q, opaque=OP)
        if r is None:
            continue
        n = 0
        for e in r.ev("call"):
            if e.d["name"].split(".")[-1] == "register_link_candidate" and all(k in e.d["args"] for k in ("self", "fitness", "cand")):
                n += 1
                Link(ctx, r, e, back).check()
        if not n:
            ctx.unk("links", where(f), "no registered link recognised")
    f = ctx.func("track", "angle_acc")
    if f is not None and len(f.params) == 3:
        st, pr, cd = vec("s", 3), vec("p", 3), vec("c", 3)
        r = ctx.run("track", "angle_acc", dict(zip(f.params, (st, pr, cd))))
        if r is not None:
            w = ctx.spec("s_angle_acc", {"start": st, "pred": pr, "cand": cd}).ret()
            soft = [tm.eq(sub(pr.args[1][i], st.args[1][i]), s) for i in range(3) for s in (sub(cd.args[1][i], st.args[1][i]), sub(st.args[1][i], cd.args[1][i]))] \
                if pr.op == "seq" and isinstance(pr.args[1], tuple) else ()
            ctx.same("angle_acc", where(f), r.ret(), w, "acceleration and angle between the predicted and the actual step", soft=soft)
        for cd2, val, what in ((seq([sub(mul(num(2), a), b) for a, b in zip(elems(st), elems(pr))], "array"), 200, "opposite to"), (pr, 0, "as")):
            r = ctx.run("track", "angle_acc", dict(zip(f.params, (st, pr, cd2))))
            if r is not None:
                try:
                    g = r.elem(r.ret(), 0)
                except (Undecided, TooBig) as ex:
                    ctx.unk("angle_acc:" + what, where(f), str(ex))
                    continue
                ctx.same("angle_acc:" + what, where(f), g, num(val), "the angle of a step %s the predicted one is %d gon" % (what, val), and_(*[gt(sub(b, a), ZERO) for a, b in zip(elems(st), elems(pr))]))


def limname(t):
    """name of a tracking limit, or None"""
    if t.op == "sel" and t.args[1].op == "str" and t.args[0].op == "sel" and t.args[0].args[1].op == "str" and "tpar" in t.args[0].args[1].args[0]:
        return t.args[1].args[0]
    return None


def frameof(b):
    """slot of a frame of the buffer"""
    if b.op == "sel" and b.args[1].op == "num" and fieldname(b.args[0]) == "buf":
        return int(b.args[1].args[0])
    return None


def position(t):
    """(slot, index or None, component or None) of a position; None for other terms"""
    c = None
    if t.op == "sel" and t.args[1].op == "num" and not (t.args[0].op == "call"):
        c, t2 = int(t.args[1].args[0]), t.args[0]
        p = position(t2)
        if p is not None and p[2] is None:
            return p[0], p[1], c
    if t.op == "sel" and t.args[1].op == "str" and t.args[1].args[0] == "x":
        b = t.args[0]
        if b.op == "sel" and fieldname(b.args[0]) == "path_info":
            k = frameof(b.args[0].args[0])
            if k is not None:
                return k, b.args[1], None
        return None
    if t.op == "sel" and t.args[1] is ONE and t.args[0].op == "call" and t.args[0].args[0] == "point_position":
        ks = set()
        for x in walk(t.args[0].args[1]):
            if x.op == "call" and x.args[0] == "assess_new_position":
                ks |= {frameof(a) for a in x.args[1:]} - {None}
                break
        if len(ks) == 1:
            return ks.pop(), None, None
    return None


def vector(t):
    """affine combination of positions: {position: coefficient} or None"""
    if t.op == "seq":
        el = elems(t)
        vs = []
        for i, x in enumerate(el):
            v = vector(x)
            if v is None or any(p[2] not in (None, i) for p in v):
                return None
            vs.append({(p[0], p[1]): c for p, c in v.items()})
        if len(vs) != 3 or any(v != vs[0] for v in vs):
            return None
        return {(a, b, None): c for (a, b), c in vs[0].items()}
    out = {}
    for m, c in tm.topoly(t).items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        p = position(m[0][0])
        if p is None:
            return None
        out[p] = out.get(p, 0) + c
    return {k: c for k, c in out.items() if c}


def timeof(v):
    return sum(p[0] * c for p, c in v.items()) if v is not None and sum(v.values()) == 1 else None


def actual(v):
    return v is not None and list(v.values()) == [1]


def coeff(p, atom):
    """(coefficient of a linear atom, the rest) of a polynomial, or None"""
    d = tm.topoly(p)
    k = ((atom, 1),)
    if k not in d or any(atom is a for m in d if m != k for a, e in m):
        return None
    c = d.pop(k)
    return c, tm.frompoly(d)


def under(t, lits):
    for c in lits:
        t = tm.deep_assume(t, c)
    return t


def lin(p):
    return [a for m in tm.topoly(p) for a, e in m]


def cmp(a, b):
    """True, False or None"""
    if a is b:
        return True
    v = compare(atomise(a), atomise(b))[0]
    return {"eq": True, "ne": False}.get(v)


class Link:
    def __init__(self, ctx, r, e, back):
        self.ctx, self.r, self.e, self.back = ctx, r, e, back
        self.g = e.guard
        self.cand = e.d["args"]["cand"]
        self.fit = e.d["args"]["fitness"]
        self.me = e.d["args"]["self"]

    def check(self):
        self.used, self.case = [], ()
        prevs = self.cases()
        for c in prevs:
            g, fit = self.g, self.fit
            g, fit = under(g, c), under(fit, c)
            if g is FALSE or tm.unsat(g, 2):
                continue
            self.case = c
            self.speed(g)
            self.accept(g, fit)
        self.ends()

    def cases(self):
        """cases of the conditions that choose between terms inside the tested quantities"""
        cs = []
        for t in (self.fit, self.g):
            for x in walk(t):
                if x.op == "phi" and x.args[0] not in cs and not any(y.op == "phi" for y in walk(x.args[0])):
                    cs.append(x.args[0])
        # conditions inside an acceptance test
        ps = [x for x in walk(self.g) if x.op in ("le0", "lt0") and any(fieldname(y) == "prev_frame" for y in value_atoms(x)) and len(value_atoms(x)) == 1]
        for x in ps:
            if x not in cs and not_(x) not in cs:
                cs.append(x)
        out = [()]
        for c in cs[:3]:
            new = []
            for o in out:
                for lit in (c, not_(c)):
                    new.append(o + (lit,))
            out = new
        return out

    # ------------------------------------------------------------ velocity
    def speed(self, g):
        ctx, e = self.ctx, self.e
        lits = [c for c in conjuncts(g) if c.op in ("lt0", "le0")]
        for i, ax in enumerate(AX):
            for side in ("min", "max"):
                nm = "dv%s%s" % (ax, side)
                what = "velocity limit %s" % nm
                hits = []
                for c in lits:
                    at = [a for a in lin(c.args[0]) if limname(a) == nm]
                    if at:
                        hits.append((c, at[0]))
                if not hits:
                    inside = any(limname(a) == nm for a in walk(g))
                    hidden = any(x.op == "call" and x.args[0] not in OP and any(limname(y) or fieldname(y) == "tpar" for a in x.args[1:] for y in walk(a)) for x in walk(g))
                    if inside or hidden or any(x.op in ("mu", "muout", "opq") and not under_loop(x) for c in lits for x in lin(c.args[0])):
                        ctx.unk("speed", e.where, "%s is tested in a way not recognised" % what)
                    else:
                        ctx.bad("speed", e.where, "a link is registered without a test of the %s" % what)
                    continue
                res = [self.speedlit(c, at, i, side, nm) for c, at in hits]
                bad = [m for s, m in res if s == "bad"]
                if any(s == "ok" for s, m in res):
                    ctx.hold("speed", e.where, "%s is tested against the displacement between consecutive frames" % what)
                elif bad:
                    ctx.bad("speed", e.where, bad[0])
                else:
                    ctx.unk("speed", e.where, "%s: %s" % (what, res[0][1]))

    def speedlit(self, c, at, i, side, nm):
        cr = coeff(c.args[0], at)
        if cr is None:
            return "unk", "limit not linear"
        k, rest = cr
        if rest is None:
            return "unk", "not interpreted"
        D = mul(num(tm._q(-1, k)), rest)         # the limit is compared with D
        v = vector(D)
        if v is None:
            return "unk", "tested quantity is not made of positions: %s" % show(D, 6)[:200]
        comps = {p[2] for p in v} - {None}
        if len(comps) > 1 or comps and comps != {i}:
            return "bad", "the limit %s is compared with component %s of the displacement" % (nm, sorted(AX[x] if 0 <= x < 3 else x for x in comps))
        if side == "min" and k < 0 or side == "max" and k > 0:
            return "bad", "the limit %s is on the wrong side of its test" % nm
        pos = [p for p, x in v.items() if x == 1]
        neg = [p for p, x in v.items() if x == -1]
        if len(v) != 2 or len(pos) != 1 or len(neg) != 1:
            return "bad", "the limit %s is not compared with the difference of two positions: %s" % (nm, show(D, 6)[:200])
        dt = pos[0][0] - neg[0][0]
        want = -1 if self.back else 1
        if dt != want:
            return "bad", "the limit %s is compared with a displacement from slot %d to slot %d of the buffer" % (nm, neg[0][0], pos[0][0])
        if max(pos[0][0], neg[0][0]) < 2:
            return "bad", "the limit %s is compared with the displacement before the current frame" % nm
        self.used += [(pos[0], self.case), (neg[0], self.case)]
        return "ok", ""

    # ------------------------------------------------------------ acceleration and angle
    def accept(self, g, fit):
        ctx, e = self.ctx, self.e
        acc = [a for a in walk(g) if limname(a) == "dacc"]
        ang = [a for a in walk(g) if limname(a) == "dangle"]
        unknown = any(x.op == "call" and x.args[0] not in OP for x in walk(g) if any(limname(y) for y in walk(x)))
        for a, n, w in ((acc, "dacc", "acceleration"), (ang, "dangle", "angle")):
            if not a:
                if unknown or any(fieldname(x) == "tpar" for c in walk(g) if c.op == "call" and c.args[0] not in OP for x in walk(c)):
                    ctx.unk("accept", e.where, "test of the %s not recognised" % w)
                else:
                    ctx.bad("accept", e.where, "a link is registered without a test of the %s limit" % w)
                return
        dacc, dang = acc[0], ang[0]
        A, B, bad = [], [], None
        for c in walk(g):
            if c.op not in ("lt0", "le0"):
                continue
            for lim, lst, comp, nm in ((dacc, A, 1, "acceleration"), (dang, B, 0, "angle")):
                cr = coeff(c.args[0], lim)
                if cr is None:
                    continue
                k, rest = cr
                w = self.weights(rest)
                if w is None:
                    ctx.unk("accept", e.where, "quantity compared with the %s limit: %s" % (nm, show(rest, 6)[:150]))
                    return
                if k > 0:
                    # a negated test
                    w = {x: -y for x, y in w.items()}
                    k = -k
                    if any(y < 0 for y in w.values()):
                        bad = bad or "the %s limit is a lower bound" % nm
                if any(x[1] != comp for x in w):
                    bad = bad or "the %s limit is compared with the %s" % (nm, "angle" if comp else "acceleration")
                sc = tm._q(sum(w.values()), -k)
                lst.append((sc, {x[0]: tm._q(tm._q(y, -k), sc) for x, y in w.items()}, c))
        if bad:
            return ctx.bad("accept", e.where, bad)
        if not A or not B:
            return ctx.unk("accept", e.where, "tests of acceleration and angle not recognised")
        ref = A[0][1]
        for sc, w, c in A + B:
            if w != ref:
                return ctx.bad("accept", e.where, "the limits are compared with quantities of different steps: %s" % show(c, 6)[:200])
            if any(y <= 0 for y in w.values()) or sum(w.values()) != 1:
                return ctx.bad("accept", e.where, "the tested acceleration is not an average: %s" % show(c, 6)[:200])
        ea = self.quant(ref, 1)
        eb = self.quant(ref, 0)
        lit = or_(and_(lt(ea, dacc), lt(eb, dang)), lt(mul(num(10), ea), dacc))
        v = implied(g, lit)
        if v is True:
            ctx.hold("accept", e.where, "acceleration and angle below their limits, or the acceleration below a tenth of its limit")
        elif v is False:
            ctx.bad("accept", e.where, "a link is registered although neither acceleration and angle are below their limits nor the acceleration below a tenth of its limit")
        else:
            ctx.unk("accept", e.where, "acceptance of the link")
        for t in ref:
            self.step(t)
        self.quality(fit, ea, eb, dacc, dang)

    def weights(self, t):
        """{(angle_acc call, component): weight}"""
        out = {}
        for m, c in tm.topoly(t).items():
            if len(m) != 1 or m[0][1] != 1:
                return None
            a = m[0][0]
            if a.op != "sel" or a.args[1].op != "num" or a.args[0].op != "call" or a.args[0].args[0] != "angle_acc":
                return None
            out[(a.args[0], int(a.args[1].args[0]))] = c
        return out or None

    def quant(self, w, comp):
        out = ZERO
        for t, c in w.items():
            out = add(out, mul(num(c), mk("sel", t, num(comp))))
        return out

    def step(self, t):
        ctx, e = self.ctx, self.e
        if len(t.args) != 4:
            return ctx.unk("order", e.where, "acceleration of %s" % show(t, 4)[:100])
        vs = [vector(a) for a in t.args[1:]]
        ts = [timeof(v) for v in vs]
        if any(v is None for v in vs):
            return ctx.unk("order", e.where, "positions not recognised in %s" % show(t, 6)[:200])
        if any(x is None for x in ts):
            return ctx.bad("order", e.where, "the acceleration is computed from something that is no position: %s" % show(t, 7)[:200])
        if not actual(vs[0]) or not (actual(vs[1]) or actual(vs[2])):
            return ctx.bad("order", e.where, "the acceleration is not computed from a particle and a candidate: %s" % show(t, 7)[:200])
        if ts[1] != ts[0] + 1 or ts[2] != ts[0] + 1:
            return ctx.bad("order", e.where, "the acceleration is computed from positions at slots %s, %s and %s of the buffer" % tuple(map(str, ts)))
        ctx.hold("order", e.where, "acceleration from a position and the predicted and actual position one step on")
        for v in vs:
            if actual(v):
                self.used += [(p, self.case) for p in v]

    # ------------------------------------------------------------ quality
    def quality(self, fit, ea, eb, dacc, dang):
        ctx, e = self.ctx, self.e
        lmax = next((x for x in walk(fit) if fieldname(x) == "lmax"), None)
        d = tm.topoly(fit)
        parts = {}
        for m, c in d.items():
            key = None
            rest = []
            for a, k in m:
                nm = "lmax" if a is lmax and lmax is not None else limname(a) if a.op == "sel" else None
                if k == -1 and nm in ("lmax", "dacc", "dangle") and key is None:
                    key = nm
                else:
                    rest.append((a, k))
                    if nm is not None:
                        rest = None
                        break
            if rest is None or key is None:
                if any(x.op in ("mu", "muout", "opq") and not under_loop(x) for x in walk(fit)) or any(a.op == "phi" for a, k in m):
                    return ctx.unk("quality", e.where, "quality of the link")
                return ctx.bad("quality", e.where, "a part of the link's quality is not relative to one limit: %s" % show(tm.frompoly({m: c}), 5)[:200])
            parts.setdefault(key, {})[tuple(rest)] = c
        for k, w in (("lmax", "displacement"), ("dacc", "acceleration"), ("dangle", "angle")):
            if k not in parts:
                return ctx.bad("quality", e.where, "the %s is missing in the link's quality" % w)
        P = {k: tm.frompoly(v) for k, v in parts.items()}
        v = cmp(mul(P["dacc"], eb), mul(P["dangle"], ea))
        if v is not True:
            if v is False:
                return ctx.bad("quality", e.where, "the link's quality combines other quantities than the tested acceleration and angle, or not each with its own limit")
            return ctx.unk("quality", e.where, "acceleration and angle in the link's quality")
        norms = [x for x in lin(P["lmax"]) if x.op == "call" and x.args[0] == "vec_diff_norm"]
        acc = [x for x in walk(P["dacc"]) if x.op == "sel" and x.args[0].op == "call" and x.args[0].args[0] == "angle_acc"]
        if not norms:
            return ctx.unk("quality", e.where, "displacement in the link's quality: %s" % show(P["lmax"], 5)[:150])
        for x in norms:
            vs = [vector(a) for a in x.args[1:]]
            if any(v is None for v in vs):
                return ctx.unk("quality", e.where, "displacement in the link's quality")
            if not all(actual(v) for v in vs) or abs(timeof(vs[0]) - timeof(vs[1])) != 1:
                return ctx.bad("quality", e.where, "the displacement in the link's quality is not one between consecutive frames: %s" % show(x, 7)[:200])
        one = {x: ONE for x in norms + acc}
        l, a = tm.subst(P["lmax"], one), tm.subst(P["dacc"], one)
        v = cmp(l, a)
        if v is True:
            ctx.hold("quality", e.where, "displacement, acceleration and angle, each over its own limit")
        elif v is False:
            ctx.bad("quality", e.where, "displacement and acceleration have different weights in the link's quality: %s and %s" % (show(l, 4), show(a, 4)))
        else:
            ctx.unk("quality", e.where, "weights in the link's quality")

    # ------------------------------------------------------------ the link's ends
    def ends(self):
        ctx, e = self.ctx, self.e
        me = self.me
        if not (me.op == "sel" and fieldname(me.args[0]) == "path_info" and frameof(me.args[0].args[0]) is not None):
            return ctx.unk("ends", e.where, "owner of the link")
        k = frameof(me.args[0].args[0])
        if k != 1:
            return ctx.bad("ends", e.where, "the link is registered with a particle of slot %d" % k)
        if not self.used:
            return ctx.unk("ends", e.where, "positions of the tested particles not recognised")
        for p, case in self.used:
            if p[0] == 1 and p[1] is not None and p[1] is not under(me.args[1], case):
                return ctx.bad("ends", e.where, "the tests use another particle than the owner of the link")
        c = self.cand
        two = [(p[1], case) for p, case in self.used if p[0] == 2]
        cnt = next((a for a in lin(c) if fieldname(a) == "num_parts"), None)
        if cnt is not None:
            fr = frameof(cnt.args[0])
            evs = list(self.r.ev("call"))
            added = [x for x in evs[:evs.index(e)] if x.d["name"] == "add_particle" and cnt.args[0] in x.d["args"].values() and x.guard is e.guard]
            if sub(c, cnt) is not num(-len(added)):
                return ctx.bad("ends", e.where, "the link names %s, not the particle about to be added" % show(c, 5)[:100])
            if two and fr == 2 and all(x is None for x, _ in two):
                return ctx.hold("ends", e.where, "the link names the particle about to be added")
            return ctx.bad("ends", e.where, "the link names the end of the list of slot %s, the tested particle is another" % fr)
        if any(x is None for x, _ in two):
            return ctx.bad("ends", e.where, "a new particle was tested but the link names candidate %s" % show(c, 4)[:100])
        if not two:
            return ctx.unk("ends", e.where, "position of the candidate not recognised")
        other = [x for x, case in two if x is not under(c, case)]
        if not other:
            return ctx.hold("ends", e.where, "the link names the candidate whose position was tested")
        if all(cmp(x, c) is False for x in other):
            return ctx.bad("ends", e.where, "the link names candidate %s, the tested position is that of %s" % (show(c, 4)[:100], show(other[0], 4)[:100]))
        ctx.unk("ends", e.where, "candidate of the link")


def under_loop(x):
    """start of the image positions of the search, which do not matter here"""
    return x.op == "mu" and isinstance(x.args[1], tuple) and x.args[1][:1] == ("i",)
