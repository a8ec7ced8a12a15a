"""C07: comparisons notice every difference and only differences."""
from ..rulekit import *

TECHNIQUE = ("symbolic evaluation of every comparison routine into one boolean term, and for each field (or array element) the cofactor of that "
             "term with all other fields made equal: it must be the equality of that very field")
ASSUMPTIONS = ["floating point fields hold no NaN"]

FUNCS = (("calibration", "compare_exterior", "Exterior"), ("calibration", "compare_interior", "Interior"), ("calibration", "compare_glass", "glass"),
         ("calibration", "compare_addpar", "addpar"), ("calibration", "compare_calibration", "Calibration"),
         ("parameters", "compare_mm_np", "MultimediaPar"), ("parameters", "compare_sequence_par", "SequencePar"),
         ("parameters", "compare_track_par", "TrackPar"), ("parameters", "compare_volume_par", "VolumePar"),
         ("parameters", "compare_control_par", "ControlPar"), ("parameters", "compare_target_par", "TargetPar"),
         ("tracking_frame_buf", "compare_corres", "corres"), ("tracking_frame_buf", "compare_targets", "Target"),
         ("tracking_frame_buf", "compare_path_info", "Pathinfo"), ("tracking_frame_buf", "Target.__eq__", "Target"),
         ("tracking_frame_buf", "Pathinfo.__eq__", "Pathinfo"))
EXT = ("x0", "y0", "z0", "omega", "phi", "kappa")
INT = ("xh", "yh", "cc")
VECS = {"Pathinfo": {"x": 3}}
TOL = F(1, 1000)
PAIRS = [(0, 1), (1, 0), (1, 2), (2, 1), (-1, 1), (5, 6), (F(1), 1 + F(1, 10 ** 13)), (F(1), 1 + F(1, 10 ** 7)), (F(1), 1 + F(1, 10 ** 4)),
         (F(3, 2), F(1)), (1, F(3, 2)), (100, 101), (-3, -4), (F(1, 10 ** 9), 0), (-1, -2), (10 ** 6, 10 ** 6 + 1)]
LISTS = [((1, 2), (1,)), ((1,), (1, 2)), ((1, 2), (1, 3)), ((2, 1), (1, 1)), ((1, 2), (2, 1)), ((1, 2, 3), (1, 2, 4)), ((), (1,)), ((1,), ()),
         ((1, 2, 3), (1, 5, 3))]


def check(ctx):
    ctx.rule("Each comparison routine is evaluated on two objects with independent field values. For every field the remaining fields are made "
             "equal and what is left of the result is required to be the equality of that field: never constantly true (a difference goes "
             "unnoticed), never within a tolerance except for the rotation matrix; and equal objects must compare equal.")
    for m, q, kind in FUNCS:
        f = ctx.func(m, q)
        if f is None:
            ctx.unk("anchor", q, "not found")
        elif len(f.params) >= 2:
            one(ctx, m, q, f, kind)
    auto(ctx)


def leaves(ctx, kind):
    """[(name, kind of leaf)] of the class"""
    out = []
    if kind == "Calibration":
        return [("ext_par." + x, "s") for x in EXT] + [("ext_par.dm", "dm")] + [("int_par." + x, "s") for x in INT] + [("glass_par", 3), ("added_par", 7)]
    if kind == "Exterior":
        return [(x, "s") for x in EXT] + [("dm", "dm")]
    if kind == "Interior":
        return [(x, "s") for x in INT]
    c = None
    for m in ctx.pkg.mods.values():
        c = c or m.classes.get(kind)
    if c is None:
        return None
    for n, an, d, cc in ctx.pkg.fields(c):
        s = ast.unparse(an)
        if n in VECS.get(kind, {}):
            out.append((n, VECS[kind][n]))
        elif s in ctx.pkg.mods["parameters"].classes and s != kind:
            out += [(n + "." + x, k) for x, k in leaves(ctx, s)]
        elif s.lower().startswith(("list", "typing.list")):
            out.append((n, "list"))
        elif "ndarray" in s:
            out.append((n, "arr"))
        else:
            out.append((n, "s"))
    return out


def at(t, p):
    for x in p.split("."):
        t = mk("sel", t, string(x))
    return t


def isf(t, *names):
    return t.op == "fn" and t.args[0] in names


def clean(t):
    """library facts: x compares equal with itself, arguments are of the compared type"""
    mp = {}
    for x in walk(t):
        if x.op == "truth" and isf(x.args[0], "aeq", "allclose", "isclose") and x.args[0].args[1] is x.args[0].args[2]:
            mp[x] = TRUE
        elif x.op == "truth" and isf(x.args[0], "all") and x.args[0].args[1] is TRUE:
            mp[x] = TRUE
        elif x.op == "isinst":
            mp[x] = TRUE
    return subst(t, mp) if mp else t


def one(ctx, m, q, f, kind):
    a, b = mk("sym", "a"), mk("sym", "b")
    args = (a, b)
    cls = None
    for mm in ctx.pkg.mods.values():
        cls = cls or mm.classes.get(kind)
    types = {p: ("cls", cls) for p in f.params[:2]} if cls is not None else {}
    if kind in ("glass", "addpar"):
        n = 3 if kind == "glass" else 7
        va, vb = vec("a", n), vec("b", n)
        r = ctx.run(m, q, (va, vb), key="v", unroll=16)
        if r is None:
            return
        R = clean(truth(r.ret()))
        judge(ctx, q, f, R, [("[%d]" % i, x, y) for i, (x, y) in enumerate(zip(elems(va), elems(vb)))])
        return
    if kind == "corres":
        r = ctx.run(m, q, args, key="v", unroll=16)
        if r is None:
            return
        R = clean(truth(r.ret()))
        same_(ctx, q, f, R, [("", a, b)])
        if R is TRUE:
            return ctx.bad("field", where(f), "%s is true whatever the records hold" % q)
        fs = {fieldname(x) for x in walk(R) if x.op == "sel" and root(x) is a and fieldname(x)}
        if fs and not any(x.op == "eq" and {z for z in _tops(x)} == {a, b} for x in walk(R)):
            for nm in ("nr", "p"):
                rr = clean(subst(R, {mk("sel", b, string(g)): mk("sel", a, string(g)) for g in ("nr", "p") if g != nm}))
                if rr is TRUE:
                    ctx.bad("field", where(f), "%s does not notice a difference in %s" % (q, nm))
                elif any(fieldname(x) == nm for x in walk(rr) if x.op == "sel"):
                    ctx.hold("field", where(f), nm)
                else:
                    ctx.unk("field", where(f), nm)
        elif R.op == "eq" or R.op == "truth" and isf(R.args[0], "all", "aeq"):
            ctx.hold("field", where(f), "records are compared as a whole")
        elif any(isf(x, "any") for x in walk(R)):
            ctx.bad("field", where(f), "%s is true when any of the values agrees" % q)
        else:
            ctx.unk("field", where(f), "whole record comparison")
        return
    lv = leaves(ctx, kind)
    if not lv:
        return ctx.unk("anchor", q, "fields of %s not found" % kind)
    sets, pairs = [], []
    for n, k in lv:
        for s, t in (("a", a), ("b", b)):
            p = f.params[0 if s == "a" else 1]
            if k == "dm":
                sets.append((p + "." + n, mat("%s:%s" % (s, n))))
            elif isinstance(k, int):
                sets.append((p + "." + n, vec("%s:%s" % (s, n), k)))
    r = ctx.run(m, q, args, types, sets=tuple(sets), key="v", unroll=16)
    if r is None:
        return
    R = clean(truth(r.ret()))
    for n, k in lv:
        if k == "dm":
            ma, mb = mat("a:" + n), mat("b:" + n)
            pairs += [("%s[%d,%d]~" % (n, i, j), elems(elems(ma)[i])[j], elems(elems(mb)[i])[j]) for i in range(3) for j in range(3)]
        elif isinstance(k, int):
            pairs += [("%s[%d]" % (n, i), x, y) for i, (x, y) in enumerate(zip(elems(vec("a:" + n, k)), elems(vec("b:" + n, k))))]
        else:
            pairs.append((n, at(a, n), at(b, n)))
    judge(ctx, q, f, R, pairs)
    # lists: concrete lists of different lengths and elements in the one field, everything else equal
    for n, k in lv:
        if k != "list":
            continue
        res = None
        for x, y in LISTS:
            rest = {yb: xa for _, xa, yb in pairs if yb is not at(b, n)}
            ss = tuple(sets) + ((f.params[0] + "." + n, seq([num(v) for v in x], "list")), (f.params[1] + "." + n, seq([num(v) for v in y], "list")))
            rr = ctx.run(m, q, args, types, sets=ss, key=("l", n, x, y), unroll=16)
            if rr is None:
                break
            v = clean(subst(clean(truth(rr.ret())), rest))
            if v is TRUE:
                res = (x, y)
                break
            if v is not FALSE:
                res = "unk"
        else:
            if res is None:
                ctx.hold("list", where(f), "%s: lists that differ in length or in one element in %s are unequal" % (q, n))
        if isinstance(res, tuple):
            ctx.bad("list", where(f), "%s does not notice that %s is %s in one and %s in the other object" % (q, n, list(res[0]), list(res[1])))
        elif res == "unk":
            ctx.unk("list", where(f), n)


def _tops(t):
    """bases of the accesses in t"""
    return {root(x) for x in walk(t) if x.op in ("sym", "sel")}


def same_(ctx, q, f, R, pairs):
    e = clean(subst(R, {y: x for _, x, y in pairs}))
    if e is TRUE:
        ctx.hold("reflexive", where(f), "%s: equal objects compare equal" % q)
    elif e is FALSE:
        ctx.bad("reflexive", where(f), "%s: objects whose fields are all equal compare unequal" % q)
    else:
        v = [e]
        if const_at(e, pairs, 7) is FALSE:
            ctx.bad("reflexive", where(f), "%s: objects whose fields are all equal compare unequal" % q)
        else:
            ctx.unk("reflexive", where(f), "%s: %s" % (q, show(v[0], 5)[:120]))


def const_at(e, pairs, val):
    return clean(subst(e, {t: num(val + i) for i, (_, t, _) in enumerate(pairs)}))


def judge(ctx, q, f, R, pairs):
    same_(ctx, q, f, R, pairs)
    for n, x, y in pairs:
        tol = n.endswith("~")
        n = n.rstrip("~")
        rest = {b: a for _, a, b in pairs if b is not y}
        C = clean(subst(R, rest))
        msg = "%s: with all else equal the result is the equality of %s" % (q, n)
        if C is TRUE:
            ctx.bad("field", where(f), "%s does not notice a difference in %s" % (q, n))
            continue
        if C is FALSE:
            ctx.bad("field", where(f), "%s is false whatever %s is" % (q, n))
            continue
        if C.op == "eq" and C is eq(x, y):
            ctx.hold("field", where(f), msg)
            continue
        lits = list(C.args) if C.op == "and" else [C]
        core = [l.args[0] if l.op == "truth" else l for l in lits]
        if len(core) == 1 and isf(core[0], "allclose", "isclose"):
            t = tols(core[0])
            if not tol:
                ctx.bad("field", where(f), "%s compares %s only within a tolerance" % (q, n))
            elif t is not None and t > TOL:
                ctx.bad("field", where(f), "%s compares %s with the tolerance %s" % (q, n, float(t)))
            elif t is not None:
                ctx.hold("field", where(f), "%s: %s equal within a small tolerance" % (q, n))
            else:
                ctx.unk("field", where(f), msg)
            continue
        if len(core) == 1 and isf(core[0], "aeq") and contains_only(core[0], x, y):
            ctx.hold("field", where(f), msg)
            continue
        if len(core) == 1 and isf(core[0], "all") and core[0].args[1] is eq(x, y):
            ctx.hold("field", where(f), msg)
            continue
        if len(core) == 1 and isf(core[0], "any") and core[0].args[1] is eq(x, y):
            ctx.bad("field", where(f), "%s is satisfied when any element of %s agrees" % (q, n))
            continue
        # decide on values
        ok = True
        for u, v in PAIRS:
            w = clean(subst(C, {x: num(u), y: num(v)}))
            if w is TRUE and not (tol and abs(u - v) <= TOL):
                ctx.bad("field", where(f), "%s takes %s = %s and %s as equal" % (q, n, float(u), float(v)))
                break
            if w is not FALSE and not (tol and w is TRUE):
                ok = False
        else:
            if ok:
                ctx.hold("field", where(f), msg)
            else:
                ctx.unk("field", where(f), "%s: %s" % (msg, show(C, 5)[:160]))


def contains_only(t, x, y):
    s = {z for z in walk(t)}
    return x in s and y in s


def tols(t):
    kw = {}
    pos = []
    for z in t.args[3:]:
        if z.op == "kwarg":
            kw[z.args[0]] = z.args[1]
        else:
            pos.append(z)
    names = ("rtol", "atol")
    for i, p in enumerate(pos[:2]):
        kw.setdefault(names[i], p)
    a, r = kw.get("atol", num(F(1, 10 ** 8))), kw.get("rtol", num(F(1, 10 ** 5)))
    if a.op != "num" or r.op != "num":
        return None
    return F(a.args[0]) + F(r.args[0])


def auto(ctx):
    """generated equality of dataclasses covers every field"""
    for mn in ("parameters", "tracking_frame_buf", "calibration", "correspondences", "epi"):
        m = ctx.pkg.mods.get(mn)
        if m is None:
            continue
        for c in m.classes.values():
            if not c.dataclass:
                continue
            w = "%s:%d (%s)" % (m.path, c.node.lineno, c.name)
            off = [d for d in c.node.decorator_list if isinstance(d, ast.Call) and any(
                k.arg == "eq" and isinstance(k.value, ast.Constant) and k.value.value is False for k in d.keywords)]
            skip = [n for n, an, d in c.fields if isinstance(d, ast.Call) and any(
                k.arg == "compare" and isinstance(k.value, ast.Constant) and k.value.value is False for k in d.keywords)]
            if ctx.pkg.method(c, "__eq__") is not None:
                continue
            if off:
                ctx.bad("generated", w, "equality of %s is switched off, so that equal objects compare unequal" % c.name)
            elif skip:
                ctx.bad("generated", w, "equality of %s leaves out %s" % (c.name, ", ".join(skip)))
            else:
                ctx.hold("generated", w, "the generated equality covers every field of %s" % c.name)
