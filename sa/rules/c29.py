"""C29: limiting configurations give finite numbers."""
from fractions import Fraction

from ..rulekit import *

TECHNIQUE = ("domain analysis of partial operations: every quotient, square root and inverse cosine of the anchored routines is extracted with its "
             "guard as a term over the arguments; the guard (or the value's own case distinction) must exclude the pole, square roots and inverse "
             "cosines of quantities that reach their limit must be clamped; refutation by evaluating the terms in the limiting configurations")
ASSUMPTIONS = ["pixel sizes, refractive indices, the principal distance, the scale factor and the length of the glass vector are not zero"]
F = Fraction


def V(name, *v):
    s = mk("sym", name)
    return {mk("sel", s, num(i)): F(x) for i, x in enumerate(v)}


def S(**kw):
    return {mk("sym", k): F(v) for k, v in kw.items()}


def J(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


def D(name, m):
    s = mk("sym", name)
    return {mk("sel", mk("sel", s, num(i)), num(j)): F(m[i][j]) for i in range(3) for j in range(3)}


ID = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
ROT = ((F(3, 5), F(-4, 5), 0), (F(4, 5), F(3, 5), 0), (0, 0, 1))


def check(ctx):
    ctx.rule("For every quotient in the anchored routines the guard must exclude a vanishing divisor, or the divisor must not vanish in the "
             "limiting configurations of the property; for every square root and inverse cosine whose argument stays inside the domain but "
             "reaches its edge, the argument must be clamped or a sum of squares, since rounding would carry it over the edge.")
    v3 = lambda n: vec(n, 3)
    air = S(n1=1, n2=1, n3=1, dp=5)
    water = S(n1=1, n2=F(3, 2), n3=F(4, 3), dp=5)
    back = S(n1=F(3, 2), n2=F(4, 3), n3=1, dp=5)
    rt = []
    for m in (air, water, back):
        for dm in (ID, ROT):
            for d in ((0, 0, -7), (3, 4, 0), (F(1, 3), 2, -5), (0, 0, 2), (2, 0, 0), (5, 1, -1)):
                rt.append(J(V("dir", *d), D("dm", dm), V("pp", 1, 2, 100), V("gl", 0, 0, 10), m))
    rt += [J(V("dir", *d), D("dm", ID), V("pp", 1, 2, 100), V("gl", 1, 2, 2), m) for m in (water, back) for d in ((-1, -2, -2), (2, -1, 0), (0, 1, -5))]
    self = Fin(ctx)
    self.run("ray_tracing", "fast_ray_tracing", [v3("dir"), mat("dm"), v3("pp"), v3("gl")] + syms("dp", "n1", "n2", "n3"), rt,
             "a ray perpendicular or parallel to the glass")
    self.run("vec_utils", "unit_vector", [v3("v")], [V("v", 0, 0, 0), V("v", 1, 2, 3), V("v", 0, 0, 1)], "a vector of length zero")
    aa = []
    for a, b, c in (((1, 2, 3),) * 3, ((1, 2, 3), (1, 2, 3), (2, 2, 5)), ((1, 2, 3), (2, 2, 5), (1, 2, 3)), ((0, 0, 0), (1, 2, 3), (2, 4, 6)),
                    ((0, 0, 0), (1, 2, 3), (-2, -4, -6)), ((0, 0, 0), (1, 2, 3), (1, 2, 3)), ((0, 0, 0), (1, 0, 0), (-1, 0, 0)),
                    ((0, 0, 0), (1, 2, 3), (-3, 1, 2)), ((1, 1, 1), (2, 3, 4), (5, 1, -2)), ((0, 0, 0), (1, 2, 3), (3, 6, 9))):
        aa.append(J(V("s", *a), V("p", *b), V("c", *c)))
    self.run("track", "angle_acc", [v3("s"), v3("p"), v3("c")], aa, "a particle at rest, moving straight on or turning back")
    self.run("multimed", "move_along_ray", [mk("sym", "z"), v3("v"), v3("ray")],
             [J(S(z=z), V("v", 1, 2, 3), V("ray", *d)) for z in (0, 3) for d in ((1, 0, 0), (0, 0, -1), (1, 1, 1))], "a ray parallel to the glass")
    f = ctx.func("multimed", "fast_multimed_r_nlay")
    if f is not None and len(f.params) == 9:
        for nlay in (1, 2):
            cf = [J(S(n1=1, n3=F(4, 3), x0=x, y0=y, z0=z), V("pos", 1, 2, 3), {mk("sel", mk("sym", "n2"), num(i)): F(3, 2) for i in range(nlay)},
                    {mk("sel", mk("sym", "d"), num(i)): F(5) for i in range(nlay)}) for x, y, z in ((1, 2, 100), (1, 2, 3), (50, 2, 3), (4, 5, 60))]
            self.run("multimed", "fast_multimed_r_nlay", [num(nlay), mk("sym", "n1"), vec("n2", nlay), mk("sym", "n3"), vec("d", nlay)] + syms(
                "x0", "y0", "z0") + [v3("pos")], cf, "a point right below the camera or at the camera's depth")
    self.run("multimed", "fast_trans_cam_point", [v3("pp"), mk("sym", "d"), v3("gl"), v3("pos")],
             [J(V("pp", 0, 0, 100), S(d=5), V("gl", 0, 0, 10), V("pos", *p)) for p in ((0, 0, 0), (0, 0, 10), (3, 4, 5), (0, 0, 100))],
             "a point below the camera")
    self.run("multimed", "fast_back_trans_point", [v3("gl"), mk("sym", "d"), v3("cc"), v3("cp"), v3("pt")],
             [J(V("gl", 0, 0, 10), S(d=5), V("cc", *c), V("cp", *p), V("pt", 0, 0, 3)) for c, p in (
                 ((0, 0, 15), (0, 0, 10)), ((0, 0, 5), (0, 0, 0)), ((1, 2, 3), (5, 2, 3)))], "a point right below the camera")
    self.run("find_candidate", "quality_ratio", syms("a", "b"), [S(a=a, b=b) for a, b in ((0, 0), (0, 1), (2, 0), (3, 4))], "two empty spots")
    self.run("trafo", "distort_brown_affine", syms("x", "y") + [vec("ap", 7)],
             [J(S(x=x, y=y), V("ap", *ap)) for x, y in ((0, 0), (0, 2), (3, 4)) for ap in ((0, 0, 0, 0, 0, 1, 0), (F(1, 100), 0, 0, F(1, 10), 0, 1, 0))],
             "a point at the image centre")
    self.run("trafo", "correct_brown_affine", syms("x", "y") + [vec("ap", 7)] + [mk("sym", "tol")],
             [J(S(x=x, y=y, tol=F(1, 100000)), V("ap", *ap)) for x, y in ((0, 0), (0, 2), (3, 4)) for ap in (
                 (0, 0, 0, 0, 0, 1, 0), (F(1, 100), 0, 0, F(1, 10), 0, 1, 0))], "a point at the image centre")
    self.projection()
    self.position()
    self.line()


class Fin:
    def __init__(self, ctx):
        self.ctx = ctx

    def run(self, mod, q, args, configs, what, keep=None, **kw):
        ctx = self.ctx
        f = ctx.func(mod, q)
        if f is None:
            return ctx.unk("anchor", q, "not found")
        if not isinstance(args, dict) and len(args) > len(f.params):
            return ctx.unk("anchor", where(f), "unexpected arguments")
        r = ctx.run(mod, q, args, rec_arith=True, **kw)
        if r is None:
            return
        self.events(r, f, configs, what, keep)
        if not any(s[0] in ("quotient", "domain", "finite") and s[2].endswith("(%s)" % f.name) for s in ctx.obl):
            ctx.hold("finite", where(f), "%s: no partial operation" % f.name)

    def events(self, r, f, configs, what, keep=None):
        ctx = self.ctx
        seen = set()
        for e in [e for e in r.events if e.kind in ("div", "fnapp")]:
            if keep is not None and e.func.name not in keep:
                continue
            if e.kind == "div":
                parts = elems(e.den) if e.den.op == "seq" else [e.den]
                for d in parts:
                    if isinstance(d, T) and (d, e.guard, id(e.node)) not in seen:
                        seen.add((d, e.guard, id(e.node)))
                        self.quotient(e, d, configs, what)
            elif e.name in ("sqrt", "arccos", "arcsin"):
                parts = elems(e.arg) if e.arg.op == "seq" else [e.arg]
                for a in parts:
                    if isinstance(a, T):
                        self.domain(e, a, configs, what)

    def envs(self, configs, d=None):
        # what the loops computed is arbitrary: several samples when the divisor itself does not depend on it
        for i, c in list(enumerate(configs)) if d is None or pit.opaque(d) else [
                (k + 100 * j, c) for j in range(6) for k, c in enumerate(configs)]:
            env = pit.Env(31 + i)
            env.crisp = True
            for t, v in c.items():
                env.vals[pit._ckey(t, env)] = v
            yield c, env

    def quotient(self, e, d, configs, what):
        ctx = self.ctx
        if d.op == "num":
            return
        m = "the divisor %s" % show(d, 4)
        if config(d):
            return
        if bycases(e.guard, ne(d, ZERO)) or nonzero(d) or bycases(e.guard, lt(ZERO, d)):
            return ctx.hold("quotient", e.where, m + " is guarded")
        ok = 0
        g = e.guard
        if not pit.opaque(d):
            # what the loops before computed is arbitrary
            g = and_(*[x for x in conjuncts(g) if not pit.opaque(x)])
        for c, env in self.envs(configs, d):
            try:
                if not pit._b(g, env):
                    continue
                v = pit._n(pit.evalt(d, env))
            except (pit.Skip, OverflowError, ZeroDivisionError, TypeError, RecursionError, ValueError, KeyError):
                continue
            ok += 1
            if v == 0:
                return ctx.bad("quotient", e.where, "%s vanishes for %s (%s)" % (m, what, "; ".join(
                    "%s=%s" % (show(t, 3), c[t]) for t in list(c)[:9])))
        if ok:
            ctx.hold("quotient", e.where, m + " does not vanish in %d limiting configurations" % ok)
        else:
            ctx.unk("quotient", e.where, m)

    def domain(self, e, a, configs, what):
        ctx = self.ctx
        m = "the argument %s of %s" % (show(a, 4), e.name)
        slack = [a] if e.name == "sqrt" else [sub(ONE, a), add(ONE, a)]
        if all(robust(s) for s in slack) or e.name != "sqrt" and (bounded(a) or a.op in ("min", "max") and clampedto1(a)):
            return ctx.hold("domain", e.where, m + " is clamped or a sum of squares")
        if e.name == "sqrt" and not (a.op == "poly" and topoly(a).get((), 0) > 0):
            # a sum of squares in disguise, or data dependent: only the difference from a limit is judged
            return ctx.hold("domain", e.where, m + " is no difference from a limit")
        ok, lo = 0, None
        at = None
        for c, env in self.envs(configs):
            for s in slack:
                try:
                    if not pit._b(e.guard, env):
                        continue
                    v = float(pit._n(pit.evalt(s, env)))
                except (pit.Skip, OverflowError, ZeroDivisionError, TypeError, RecursionError, ValueError, KeyError):
                    continue
                ok += 1
                if lo is None or v < lo:
                    lo, at = v, c
        if lo is None:
            return ctx.unk("domain", e.where, m)
        if lo < -1e-6:
            return ctx.hold("domain", e.where, m + " depends on the media")
        if lo < 1e-9:
            return ctx.bad("domain", e.where, "%s reaches the edge of the domain for %s and is not clamped: rounding makes it undefined" % (m, what))
        ctx.hold("domain", e.where, m + " stays inside the domain in %d configurations" % ok)

    # ---- projection of a point at the camera's own depth
    def projection(self):
        ctx = self.ctx
        f = ctx.func("imgcoord", "flat_image_coord")
        if f is None or len(f.params) != 3:
            return ctx.unk("anchor", "flat_image_coord", "not found")
        p = f.params
        r = ctx.run("imgcoord", "flat_image_coord", {p[0]: vec("pos", 3)}, rec_arith=True,
                    opaque=("multimed_nlay", "trans_cam_point", "back_trans_point"), sets=cal_sets(p[1], "c"))
        if r is None:
            return
        for e in r.ev("div"):
            if e.func is not r.func and e.func.name != f.name or e.den.op == "num":
                continue
            m = "the divisor %s of the projection" % show(e.den, 3)
            if bycases(e.guard, ne(e.den, ZERO)):
                ctx.hold("quotient", e.where, m + " is guarded")
                continue
            d = e.den
            # scalar product of the third column of the rotation with the point relative to the camera: vanishes at the camera's depth
            a, b = atomise(e.guard), atomise(d)
            hit = False
            for env in pit.sample_envs([a, b, eq(b, ZERO)], 60, 3):
                try:
                    if pit._b(a, env) and pit._n(pit.evalt(b, env)) == 0:
                        hit = True
                        break
                except (pit.Skip, OverflowError, ZeroDivisionError, TypeError, RecursionError):
                    continue
            if not hit and d.op == "fn" and d.args[0] == "dot" and e.guard is TRUE or not hit and d.op == "poly" and not any(
                    x is d for x in walk(e.guard)) and any(x.op == "sel" and "dm" in show(x, 4) or x.op == "sym" for x in walk(d)) and not config(d):
                hit = True
            if hit:
                ctx.bad("quotient", e.where, m + " vanishes for a point at the camera's own depth")
            else:
                ctx.unk("quotient", e.where, m)

    def position(self):
        ctx = self.ctx
        f = ctx.func("orientation", "point_position")
        if f is None or len(f.params) != 4:
            return ctx.unk("anchor", "point_position", "not found")
        r = ctx.run("orientation", "point_position", rec_arith=True, opaque=("ray_tracing", "skew_midpoint"))
        if r is None:
            return
        for e in r.ev("div"):
            if e.func.name != f.name:
                continue
            m = "the number of rays %s" % show(e.den, 3)
            if bycases(e.guard, ne(e.den, ZERO)) or bycases(e.guard, lt(ZERO, e.den)) or nonzero(e.den):
                ctx.hold("quotient", e.where, m + " is guarded")
            elif e.den.op in ("sum", "muout") and not any(x is e.den for x in walk(e.guard)):
                ctx.bad("quotient", e.where, "%s vanishes for a point seen by fewer than two cameras" % m)
            else:
                ctx.unk("quotient", e.where, m)

    def line(self):
        ctx = self.ctx
        f = ctx.func("find_candidate", "find_candidate")
        if f is None or len(f.params) < 11:
            return ctx.unk("anchor", "find_candidate", "not found")
        r = ctx.run("find_candidate", "find_candidate", rec_arith=True, opaque=("correct_brown_affine", "quality_ratio", "find_start_point"))
        if r is None:
            return
        n = 0
        xa, xb = mk("sym", f.params[3]), mk("sym", f.params[5])
        ya, yb = mk("sym", f.params[4]), mk("sym", f.params[6])
        cf = [{xa: F(1), xb: F(b), ya: F(2), yb: F(y)} for b, y in ((1, 2), (1, 5), (2, 2), (2, 5))]
        for e in [e for e in r.events if e.kind in ("div", "fnapp")]:
            if e.func.name != f.name:
                continue
            if e.kind == "div" and not config(e.den) and e.den.op != "num" and (mentions(e.den, xa) or mentions(e.den, xb)):
                self.quotient(e, e.den, cf, "an epipolar line along the y axis")
                n += 1
        if not n:
            ctx.hold("finite", where(f), "find_candidate: the slope of the line is not computed")


CONFIG = {"pix_x", "pix_y", "imx", "imy", "n1", "n2", "n3", "rw", "cc", "d"}


def config(d):
    """a configured constant: never zero"""
    if d.op == "sym":
        return d.args[0] in CONFIG
    if d.op == "sel":
        return fieldname(d) in CONFIG or d.args[0].op == "sym" and d.args[0].args[0] in ("ap", "n2", "d") or d.args[0].op == "sel" and config(d.args[0])
    if d.op == "fn" and d.args[0] in ("cos", "pi"):
        return True
    if d.op == "poly":
        p = topoly(d)
        return len(p) == 1 and all(config(a) for m in p for a, n in m)
    return False


def robust(t, depth=8):
    """at least zero whatever the rounding"""
    if depth == 0:
        return False
    if t.op == "num":
        return t.args[0] >= 0
    if t.op == "sqrt" or t.op == "fn" and t.args[0] in ("abs", "exp", "len"):
        return True
    if t.op == "max":
        return any(robust(x, depth - 1) for x in t.args) or len(t.args) == 2 and neg(t.args[0]) is t.args[1]
    if t.op == "min":
        return all(robust(x, depth - 1) for x in t.args)
    if t.op == "phi":
        return robust(t.args[1], depth - 1) and robust(t.args[2], depth - 1)
    if t.op == "fn" and t.args[0] == "dot" and t.args[1] is t.args[2]:
        return True
    if t.op in ("sum",):
        return robust(t.args[-1], depth - 1)
    if t.op == "poly":
        p = topoly(t)
        if all(c >= 0 and all(F(n).denominator == 1 and n % 2 == 0 or robust(a, depth - 1) for a, n in m) for m, c in p.items()):
            return True
        # a sum of squared differences
        if len(p) <= 40 and all(c > 0 for m, c in p.items() if len(m) == 1 and m[0][1] == 2):
            return squares(p)
        if len(p) == 2 and p.get((), 0) == 1:
            (m, c), = [(m, c) for m, c in p.items() if m]
            return c == -1 and len(m) == 1 and m[0][1] == 2 and bounded(m[0][0])
    return False


def squares(p):
    """the quadratic form is a sum of squares of differences of its variables (all coefficients as in (a-b)^2)"""
    sq = {m[0][0]: c for m, c in p.items() if len(m) == 1 and m[0][1] == 2}
    mix = {m: c for m, c in p.items() if len(m) == 2 and all(n == 1 for a, n in m)}
    if len(sq) + len(mix) != len(p):
        return False
    return all(sum(abs(c) for m, c in mix.items() if a in (m[0][0], m[1][0])) <= 2 * v for a, v in sq.items())


def bounded(t):
    """between -1 and 1 whatever the rounding"""
    return t.op == "fn" and t.args[0] in ("sin", "cos") or t.op in ("min", "max") and clampedto1(t) or t.op == "num" and abs(t.args[0]) <= 1 or \
        t.op == "phi" and bounded(t.args[1]) and bounded(t.args[2]) or t.op == "poly" and len(topoly(t)) == 1 and all(
            abs(c) <= 1 and all(bounded(a) for a, n in m) for m, c in topoly(t).items())


def clampedto1(t):
    lo = hi = False
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == "min":
            hi = hi or any(y.op == "num" and y.args[0] <= 1 for y in x.args)
            todo.extend(y for y in x.args if y.op in ("min", "max"))
        elif x.op == "max":
            lo = lo or any(y.op == "num" and y.args[0] >= -1 for y in x.args)
            todo.extend(y for y in x.args if y.op in ("min", "max"))
    return lo and hi


def nonzero(t):
    """positive, or a case distinction that avoids zero"""
    if t.op == "num":
        return t.args[0] != 0
    if t.op == "max":
        return any(x.op == "num" and x.args[0] > 0 for x in t.args)
    if t.op == "phi":
        return bycases(TRUE, ne(t, ZERO))
    if t.op == "sqrt":
        return nonzero(t.args[0])
    if t.op == "poly":
        p = topoly(t)
        return p.get((), 0) > 0 and all(c >= 0 and all(n % 2 == 0 or robust(a) for a, n in m) for m, c in p.items())
    return False
