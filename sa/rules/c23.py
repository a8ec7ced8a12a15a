"""C23: derivatives restore what they varied; a failed calibration leaves no trace; each derivative belongs to its parameter and step."""
import random
from ..rulekit import *
from ..deriv import *
from .. import pit

TECHNIQUE = ("abstract interpretation with snapshots of the calibration at every call of the projection: derivatives are decomposed into linear combinations of projections whose "
             "states are compared field by field; state at the exits compared with the state at the entry (loop-carried values by induction over the loop body)")
NOTE = "Restoring is decided over exact arithmetic: x + d - d counts as x."


def check(ctx):
    ctx.rule("num_deriv_exterior: every element of the result is a combination of projections whose weights cancel, whose calibrations differ only in the parameter of that element (and in the "
             "rotation matrix, which is that of their own angles), with a variation of one over the divisor and the step meant for that parameter; all fields at exit are those at entry. "
             "orient: the same for the columns of the projection derivatives over camera constant and glass vector; an iteration over the points ends with the fields it began with; where it "
             "gives None all fields of the calibration are those given. full_calibration raises where orient gives None.")
    exterior(ctx)
    orient(ctx)
    full(ctx)
    callers(ctx)


def now(r, par):
    return elems(r.ip.fields_now(r.st, mk("sym", par), FIELDS))


def field0(par, f):
    t = mk("sym", par)
    for x in f.split("."):
        t = mk("sel", t, num(int(x)) if x.isdigit() else string(x))
    return t


def exterior(ctx):
    f = ctx.func("orientation", "num_deriv_exterior")
    if f is None or len(f.params) < 5:
        return ctx.unk("anchor", "num_deriv_exterior", "not found")
    par, wh = calpar(f), where(f)
    r = ctx.run("orientation", "num_deriv_exterior", opaque=("img_coord",), unroll=8, state=state_opts(ctx, ("imgcoord", "img_coord")))
    if r is None:
        return
    dpos, dang = mk("sym", f.params[2]), mk("sym", f.params[3])
    for comp in (0, 1):
        for k, v in enumerate(VARS):
            what = "derivative of %s over %s" % ("xy"[comp], v)
            try:
                el = r.elem(r.value, comp, k)
            except Exception as ex:
                ctx.unk("deriv:%d:%d" % (comp, k), wh, "result not understood: %s" % ex)
                continue
            key = "deriv:%s:%s" % ("xy"[comp], v)
            d = derivative(ctx, key, wh, el, comp, ("ext_par." + v,), what, rot=True)
            if d is None:
                continue
            ctx.same(key + ":step", wh, d[0], num(1), what + ": variation divided by the step it was varied by")
            lin = combination(plain(el))
            own, other = (dpos, dang) if k < 3 else (dang, dpos)
            vs = [elems(state_of(c))[AT["ext_par." + v]] for c, _, _ in lin]
            if any(mentions_(x, other) for x in vs):
                ctx.bad(key + ":own", wh, "%s: %s is varied by the step %s" % (what, v, other.args[0]))
            else:
                ctx.hold(key + ":own", wh, what + ": own step")
    for p, t in zip(FIELDS, now(r, par)):
        if p in DM:
            continue
        ctx.same("restored:" + p, wh, t, field0(par, p), "%s is what it was before" % p)
    vals = now(r, par)
    want = rotation(ctx, seq([field0(par, p) for p in FIELDS], "tuple"))
    for p, w in zip(DM, want):
        ctx.same("restored:" + p, wh, vals[AT[p]], w, "rotation matrix of the angles at exit (%s)" % p)


def mentions_(t, s):
    return any(x is s for x in walk(t))


def orient(ctx):
    f = ctx.func("orientation", "orient")
    if f is None:
        return ctx.unk("anchor", "orient", "not found")
    r = run_orient(ctx)
    if r is None:
        return
    par, wh = calpar(f), where(f)
    # failure
    n = 0
    try:
        vals = now(r, par)
    except Exception as ex:
        vals = None
        ctx.unk("failed", wh, "state at exit not known: %s" % ex)
    for g, leaf in leaves(r.ret()):
        if leaf.op != "none" or vals is None:
            continue
        n += 1
        mp, ex = exits(r)
        for p, t in zip(FIELDS, vals):
            u = tm.subst(g, mp)
            ctx.same("failed:" + p, wh, plain(tm.deep_assume(tm.subst(t, mp), u)), field0(par, p), "without convergence %s of the given calibration is as given" % p, under=plain(and_(u, ex)), pre=many_rounds(plain(and_(u, ex))))
    if vals is not None and not n:
        ctx.unk("failed", wh, "no failure result found")
    # derivatives
    O = Orient(ctx, r)
    if O.why:
        ctx.unk("columns", wh, O.why)
        return
    O.restored()
    for comp in (0, 1):
        xy = "xy"[comp]
        c = O.column(comp, 6)
        if c is not None:
            d = derivative(ctx, "column:6:" + xy, c.where, O.hyp(c.d["val"]), comp, ("int_par.cc",), "derivative of %s over the camera constant" % xy, rot=False)
            if d is not None:
                ctx.same("column:6:%s:step" % xy, c.where, d[0], num(1), "variation of the camera constant divided by its step")
    glass(ctx, f, O)
    exteriors(ctx, f, r, "orient")


def glass(ctx, f, O):
    """columns of the glass vector: derivatives along the direction in which their own correction moves it"""
    st = O.steps()
    for comp in (0, 1):
        xy = "xy"[comp]
        for k in (16, 17):
            c = O.column(comp, k)
            if c is None:
                continue
            d = derivative(ctx, "column:%d:%s" % (k, xy), c.where, O.hyp(c.d["val"]), comp, ["glass_par.%d" % i for i in range(3)], "derivative of %s over the glass vector" % xy, rot=False)
            ss = {i: on(st["glass_par.%d" % i][0], flag(f, "interfflag")) for i in range(3) if "glass_par.%d" % i in st}
            if d is None or not any(x is beta(k) for s in ss.values() for x in walk(s)):
                continue
            for i, s in ss.items():
                s = tm.sub(tm.subst(s, {beta(k): num(1)}), tm.subst(s, {beta(k): num(0)}))
                ctx.same("column:%d:%s:%d" % (k, xy, i), c.where, d[i], s, "the derivative of %s is taken along the direction in which its correction moves the glass vector" % xy)


def exteriors(ctx, f, r, tag):
    """calls of num_deriv_exterior: steps in their place"""
    g = ctx.pkg.func("orientation", "num_deriv_exterior")
    if g is None or "dm" not in f.params or "drad" not in f.params:
        return
    for e in r.ev("call"):
        if e.name.split(".")[-1] != "num_deriv_exterior":
            continue
        a, b = e.args.get(g.params[2]), e.args.get(g.params[3])
        if a is None or b is None:
            continue
        if mentions_(a, mk("sym", "drad")) or mentions_(b, mk("sym", "dm")):
            ctx.bad("%s:steps" % tag, e.where, "the steps of position and angles are passed in each other's place")
        else:
            ctx.hold("%s:steps" % tag, e.where, "steps of position and angles in their places")


def callers(ctx):
    f = ctx.func("orientation", "raw_orient")
    if f is None:
        return
    r = ctx.run("orientation", "raw_orient", opaque=OPAQUE, state=state_opts(ctx, ("imgcoord", "img_coord"), ("orientation", "num_deriv_exterior")))
    if r is not None:
        exteriors(ctx, f, r, "raw_orient")


def run_orient(ctx):
    return ctx.run("orientation", "orient", opaque=OPAQUE, state=state_opts(ctx, ("imgcoord", "img_coord"), ("orientation", "num_deriv_exterior")))


def leaves(t, g=TRUE):
    if t.op == "phi":
        return leaves(t.args[1], and_(g, t.args[0])) + leaves(t.args[2], and_(g, not_(t.args[0])))
    return [(g, t)]


def exits(r):
    """what holds where a loop without other exits has ended: counters over the number of iterations, and the negated condition"""
    mp, ex = {}, TRUE
    for L in r.ip.loopinfo:
        if L["exit"] is None or L["brks"] or L["rets"] or L["func"] != r.ip.loopinfo[-1]["func"]:
            continue
        n = isym("rounds%d" % len(mp))
        here = {L["idx"]: n}
        for v, m in L["mus"].items():
            o = mk("muout", m.args[0], v)
            if v in L["ind"]:
                mp[o] = tm.subst(L["binding"][v], {L["idx"]: n})
            else:
                here[m] = o
        ex = and_(ex, tm.subst(L["exit"], here), ge(n, num(0)))
    return mp, ex


def many_rounds(under):
    """sample points with numbers of iterations up to beyond the usual limits, flags set and not set"""
    flags = sorted({x.args[0] for x in walk(under) if x.op == "truth" and x.args[0].op == "sym"}, key=show)

    def pre(env):
        rnd = random.Random(env.seed)
        env.memo.clear()
        for t, v in [(isym("rounds%d" % k), rnd.choice([rnd.randint(0, 100), rnd.randint(50, 1500), 80, 81, 10, 11])) for k in range(3)] + [(t, rnd.randint(0, 1)) for t in flags]:
            key = pit._ckey(t, env)
            env.names[key] = t
            env.vals[key] = v
    return pre


class Orient:
    """the equations of the adjustment: rows found by the observations stored into them"""

    def __init__(self, ctx, r):
        self.ctx, self.r, self.why = ctx, r, None
        self.rows, self.obs = {}, {}
        self.mu = {}
        for e in r.ev("store"):
            v = e.d["val"]
            if not isinstance(v, T) or not e.loops or not isinstance(e.key, T) or e.key.op == "num":
                continue
            c = {(int(val(x.args[1]))) for x in walk(v) if x.op == "sel" and x.args[1].op == "num" and is_call(x.args[0], "pixel_to_metric")}
            if len(c) == 1 and combination_has(v):
                k = c.pop()
                if k in self.obs:
                    self.why = "observations stored twice"
                self.obs[k] = e
        if set(self.obs) != {0, 1} or self.obs[0].base is not self.obs[1].base or len({e.loops[-1].idx for e in self.obs.values()}) != 1:
            self.why = self.why or "observations not found"
            return
        self.loop = self.obs[0].loops[-1]
        keys = {e.key: k for k, e in self.obs.items()}
        self.cols = {}
        for e in r.ev("store"):
            if not e.loops or e.loops[-1].idx is not self.loop.idx or not isinstance(e.d["val"], T):
                continue
            b, k = e.base, e.key
            if b.op in ("sel", "row") and b.args[1] in keys and isinstance(k, T):
                self.cols.setdefault((keys[b.args[1]], k if k.op != "num" else int(val(k))), []).append(e)
            elif isinstance(k, T) and k.op == "mkey" and k.args[0] in keys and b is not self.obs[0].base:
                k2 = k.args[1]
                self.cols.setdefault((keys[k.args[0]], k2 if k2.op != "num" else int(val(k2))), []).append(e)
        if not self.cols:
            self.why = "columns not found"

    def column(self, comp, k):
        l = self.cols.get((comp, k))
        if not l:
            self.ctx.unk("column:%d:%s" % (k, "xy"[comp]), where(self.r.func), "not found")
            return None
        if len(l) > 1:
            self.ctx.unk("column:%d:%s" % (k, "xy"[comp]), l[0].where, "stored more than once")
            return None
        return l[0]

    def restored(self):
        """fields of the calibration stored in the loop over the points have their value of the beginning at the end of its body"""
        last = {}
        used = self.obs[0].guard
        inner = {}
        for e in self.r.ev("store"):
            if not e.loops or e.loops[-1].idx is not self.loop.idx:
                continue
            b, k = e.base, e.key
            if not isinstance(k, T) or not isinstance(e.d["val"], T):
                continue
            loc = self.location(b, k)
            if loc is not None:
                last.setdefault(loc, []).append(e)
        for loc, es in sorted(last.items(), key=lambda x: str(x[0])):
            v = es[-1].d["val"]
            ins = {x for x in walk(v) if x.op == "mu"}
            name = "%s%s" % (loc[0], "" if loc[1].op == "str" and False else "." + show(loc[1], 3).strip("'"))
            # value at the beginning: the mu of this loop or of the surrounding one for the same location
            start = self.start(loc, es)
            if start is None:
                self.ctx.unk("restore:" + name, es[-1].where, "value at the beginning not known")
                continue
            self.ctx.same("restore:" + name, es[-1].where, plain(self.hyp(v)), plain(self.hyp(start)), "%s has its former value after the derivatives of a point" % name)

    def objects(self):
        """the parts of the copied calibration"""
        out = {}
        for e in self.r.ev("store"):
            if isinstance(e.key, T) and e.key.op == "str" and e.key.args[0] in ("int_par", "glass_par", "added_par", "ext_par") and isinstance(e.d["val"], T) and e.d["val"].op == "obj":
                if e.base.op == "obj":
                    out[e.d["val"]] = e.key.args[0]
        return out

    def location(self, b, k):
        o = self.objects() if not hasattr(self, "_o") else self._o
        self._o = o
        if b in o and k.op in ("str", "num"):
            return (o[b], k)
        # the calibration given, changed in place
        if b.op == "sel" and b.args[1].op == "str" and b.args[1].args[0] in ("int_par", "glass_par", "added_par", "ext_par") and k.op in ("str", "num"):
            return (b.args[1].args[0], k)
        return None

    def start(self, loc, es):
        """value before the first store of the body: taken from the state of the first projection"""
        f = "%s.%s" % (loc[0], loc[1].args[0] if loc[1].op == "str" else int(val(loc[1])))
        if f not in AT:
            return None
        st = self.base_state()
        return elems(st)[AT[f]] if st is not None else None

    def base_state(self):
        for x in walk(self.obs[0].d["val"]):
            if is_call(x, "img_coord"):
                return state_of(x)
        return None

    def steps(self):
        """change of every location of the calibration in one iteration: {field: (term, event)}, corrections as symbols beta<k>"""
        if hasattr(self, "_steps"):
            return self._steps
        cur, at = {}, {}
        flags = set()
        for e in self.r.ev("store"):
            if not e.loops or len(e.loops) >= len(self.obs[0].loops) or e.loops[-1].idx is self.loop.idx or not isinstance(e.key, T) or not isinstance(e.d["val"], T):
                continue
            loc = self.location(e.base, e.key)
            if loc is None:
                continue
            f = "%s.%s" % (loc[0], loc[1].args[0] if loc[1].op == "str" else int(val(loc[1])))
            if f not in AT:
                continue
            st = self.base_state()
            if st is None:
                continue
            old = cur.get(f, self.hyp(elems(st)[AT[f]]))
            g = and_(*[c for c in conjuncts(e.guard) if not any(x.op in ("mu", "idx") for x in walk(c))])
            v = self.hyp(self.betas(e.d["val"]))
            cur[f] = v if g is TRUE else phi(g, v, old)
            at[f] = e
        out = {}
        for f, v in cur.items():
            out[f] = (plain(tm.sub(v, self.hyp(elems(self.base_state())[AT[f]])) if v.op != "phi" else
                            phi(v.args[0], *[tm.sub(x, self.hyp(elems(self.base_state())[AT[f]])) for x in v.args[1:]])), at[f])
        self._steps = out
        return out

    def betas(self, t):
        mp = {}
        for x in walk(t):
            if x.op == "sel" and x.args[1].op == "num" and x.args[0].op == "sel" and x.args[0].args[1].op == "num" and int(val(x.args[0].args[1])) == 0 \
                    and x.args[0].args[0].op == "fn" and str(x.args[0].args[0].args[0]).endswith("lstsq"):
                mp[x] = beta(int(val(x.args[1])))
        return tm.subst(t, mp) if mp else t

    def hyp(self, t):
        """values carried by the loop over the points are those of the beginning of the loop, where restored() holds"""
        e = self.obs[0]
        if len(e.loops) < 2:
            return t
        i, o = e.loops[-1].node.lineno, e.loops[-2].node.lineno
        outer = {x.args[1]: x for x in self.mus() if x.args[0][1] == o}
        mp = {}
        for x in walk(t):
            if x.op in ("mu", "muout") and isinstance(x.args[0], tuple) and x.args[0][1] == i:
                k = x.args[1] if x.args[1] in outer else ("f",) + tuple(x.args[1])
                if k in outer:
                    mp[x] = outer[k]
        return tm.subst(t, mp) if mp else t

    def mus(self):
        if not hasattr(self, "_mus"):
            self._mus = {x for e in self.r.ev("store") if isinstance(e.d["val"], T) for x in walk(e.d["val"]) if x.op == "mu" and isinstance(x.args[0], tuple)}
        return self._mus


def beta(k):
    return mk("sym", "beta%d" % k)


def flag(f, name):
    p = next((p for p, a in zip(f.params, f.node.args.args) if a.annotation is not None and "OrientPar" in ast.unparse(a.annotation)), "flags")
    return mk("sel", mk("sym", p), string(name))


def on(t, fl, yes=True):
    """the value with the flag set or not"""
    c = tm.eq(fl, num(0))
    return tm.deep_assume(t, not_(c) if yes else c)


def combination_has(v):
    return any(is_call(x, "img_coord") for x in walk(v))


def full(ctx):
    f = ctx.func("orientation", "full_calibration")
    if f is None or ctx.func("orientation", "orient") is None:
        return
    r = ctx.run("orientation", "full_calibration", opaque=("orient", "is_used_for_orientation"))
    if r is None:
        return
    calls = [e for e in r.ev("call") if e.name.split(".")[-1] == "orient"]
    if len(calls) != 1:
        return ctx.unk("full", where(f), "call of orient not found")
    wh = calls[0].where
    terms = {x for e in r.events for x in ([e.guard] + [v for v in e.d.values() if isinstance(v, T)]) for x in walk(x) if is_call(x, "orient")}
    if len(terms) != 1:
        return ctx.unk("full", wh, "result of orient not found")
    t = terms.pop()
    under = lambda e: tm.subst(e.guard, {t: mk("none")})
    ok = [e for e in r.ev("raise") if under(e) is TRUE]
    rets = [e for e in r.ev("return") if under(e) is TRUE]
    if ok:
        ctx.hold("full:raises", ok[0].where, "raises where the adjustment did not converge")
    elif rets and not any(x.op == "none" for g, x in leaves(tm.subst(r.ret(), {t: mk("none")}))):
        ctx.bad("full:raises", rets[0].where, "returns a result although the adjustment did not converge")
    else:
        ctx.unk("full:raises", wh, "no exception for a failed adjustment found")
    par = calpar(f)
    try:
        for p, v in zip(FIELDS, now(r, par)):
            ctx.same("full:" + p, where(f), v, field0(par, p), "only the adjustment changes %s" % p)
    except Exception as ex:
        ctx.unk("full", where(f), str(ex))
