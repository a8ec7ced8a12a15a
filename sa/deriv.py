"""Helpers for the rules on the calibration: derivatives as linear combinations of projections, and the state of the calibration they were taken in."""
from .rulekit import *

ANGLES = ("omega", "phi", "kappa")
VARS = ("x0", "y0", "z0") + ANGLES
DM = ["ext_par.dm.%d.%d" % (i, j) for i in range(3) for j in range(3)]
FIELDS = tuple(["ext_par." + v for v in VARS] + DM + ["int_par." + v for v in ("cc", "xh", "yh")] + ["glass_par.%d" % i for i in range(3)] + ["added_par.%d" % i for i in range(7)])
AT = {f: i for i, f in enumerate(FIELDS)}
OPAQUE = ("img_coord", "num_deriv_exterior", "is_used_for_orientation", "pixel_to_metric", "is_singular", "unit_vector", "vec_norm")


def calpar(f):
    """the calibration parameter of a routine"""
    for p, a in zip(f.params, f.node.args.posonlyargs + f.node.args.args):
        if a.annotation is not None and "Calibration" in ast.unparse(a.annotation):
            return p
    return "cal" if "cal" in f.params else f.params[0]


def state_opts(ctx, *names):
    """interpreter option: these routines' calls carry the fields of the calibration they were given"""
    out = {}
    for mod, n in names:
        g = ctx.pkg.func(mod, n)
        if g is not None:
            out[n] = {calpar(g): FIELDS}
    return out


def is_call(t, name):
    return t.op == "call" and t.args[0].split(".")[-1] == name


def state_of(call):
    return next((a for a in call.args[1:] if isinstance(a, T) and a.op == "seq" and len(elems(a)) == len(FIELDS)), None)


def others(call):
    return [a for a in call.args[1:] if not (isinstance(a, T) and a.op == "seq" and len(elems(a)) == len(FIELDS))]


def combination(v, name="img_coord", affine=False):
    """the value as a linear combination of results of a routine: [(call, component, coefficient)], or None"""
    at = []
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == "sel" and is_call(t.args[0], name):
            at.append(t)
            return
        for k in kids(t):
            go(k)
    go(v)
    if not at or any(a.args[1].op != "num" for a in at):
        return None
    fresh = {a: mk("sym", "atom%d" % i) for i, a in enumerate(at)}
    w = tm.subst(v, fresh)
    if any(is_call(x, name) for x in walk(w)):
        return None
    zero = num(0)
    try:
        base = tm.subst(w, {s: zero for s in fresh.values()})
        out = []
        total = base
        for a in at:
            c = tm.sub(tm.subst(w, {s: (num(1) if s is fresh[a] else zero) for s in fresh.values()}), base)
            if not c is zero:
                out.append((a.args[0], int(val(a.args[1])), c))
            total = tm.add(total, tm.mul(c, fresh[a]))
    except (TooBig, ZeroDivisionError):
        return None
    if not affine and compare(base, zero)[0] != "eq" or compare(total, w)[0] != "eq":
        return None
    return out


def plain(t):
    """loop-carried values as free variables"""
    mp, i = {}, {}
    for x in walk(t):
        if x.op in ("mu", "muout"):
            mp[x] = mk("sym", "st" + "".join(ch if ch.isalnum() else "_" for ch in str(x.args)))
    return tm.subst(t, mp) if mp else t


def rotation(ctx, st):
    r = ctx.spec("s_rotation", tuple(elems(st)[AT["ext_par." + a]] for a in ANGLES))
    return [r.elem(r.value, i, j) for i in range(3) for j in range(3)]


def derivative(ctx, key, wh, v, comp, vary, what, rot=False):
    """v has to be the derivative of component comp of the projection over the fields vary; gives the direction of the variation or None"""
    v = plain(v)
    lin = combination(v)
    if not lin:
        if combination(v, affine=True) and any(is_call(x, "pixel_to_metric") for x in walk(v)):
            ctx.bad(key, wh, what + ": a detection takes the place of a projection")
        else:
            ctx.unk(key, wh, what + ": not a difference of projections")
        return None
    ok = True
    if any(k != comp for _, k, _ in lin):
        ctx.bad(key, wh, "%s is computed from the %s coordinate" % (what, "y" if comp == 0 else "x"))
        return None
    sts = [state_of(c) for c, _, _ in lin]
    if any(s is None for s in sts):
        ctx.unk(key, wh, what + ": state of the calibration not known")
        return None
    o0 = others(lin[0][0])
    for c, _, _ in lin[1:]:
        for a, b in zip(o0, others(c)):
            if compare(a, b)[0] != "eq":
                ctx.bad(key, wh, what + " subtracts projections of different points or media")
                return None
    zero = num(0)
    s = zero
    for _, _, c in lin:
        s = tm.add(s, c)
    ok &= bool(ctx.same(key + ":sum", wh, s, zero, what + ": the projections are subtracted from each other"))
    vary = tuple(vary)
    skip = set(vary) | (set(DM) if rot else set())
    for f in FIELDS:
        if f in skip:
            continue
        i = AT[f]
        for st in sts[1:]:
            if elems(st)[i] is not elems(sts[0])[i]:
                ok &= bool(ctx.same(key + ":only:" + f, wh, elems(st)[i], elems(sts[0])[i], "%s: %s is the same in both projections" % (what, f)))
    if rot:
        for st in sts:
            want = rotation(ctx, st)
            for g, w, f in zip([elems(st)[AT[x]] for x in DM], want, DM):
                if g is not w:
                    ok &= bool(ctx.same(key + ":rotation", wh, g, w, "%s: the projections are taken with the rotation matrix of their own angles (%s)" % (what, f)))
    dirs = []
    for f in vary:
        d = zero
        for (_, _, c), st in zip(lin, sts):
            d = tm.add(d, tm.mul(c, elems(st)[AT[f]]))
        dirs.append(d)
    return dirs if ok else None
