"""C04: calibration files read back as written."""
from ..rulekit import *

TECHNIQUE = ("dataflow of the writer into an ordered token stream per file and of the reader from token positions into fields, composed: "
             "each field must be read from the position its own value is written to; path analysis of the result and error paths")

FIELDS = (["ext_par." + x for x in ("x0", "y0", "z0", "omega", "phi", "kappa")] + ["int_par." + x for x in ("xh", "yh", "cc")] +
          ["glass_par.%d" % i for i in range(3)])
ADDED = ["added_par.%d" % i for i in range(7)]


def check(ctx):
    ctx.rule("The text each writer produces is reconstructed token by token for a symbolic calibration; every field the reader sets is traced "
             "to its token position; both have to agree for every value of both files. Result and raise paths are compared with the files opened and written.")
    w = writer(ctx)
    for q in ("read_calibration", "read_ori", "Calibration.from_file"):
        f = ctx.func("calibration", q)
        if f is not None and w:
            reader(ctx, q, f, w)
    result(ctx)
    other_writers(ctx)


def writer(ctx):
    f = ctx.func("calibration", "write_calibration")
    if f is None or len(f.params) != 3:
        return None
    C = mk("sym", "cal")
    vals = {}
    r = ctx.run("calibration", "write_calibration", {f.params[0]: C}, types={f.params[0]: "Calibration"}, sets=cal_sets(f.params[0], "c"))
    if r is None:
        return None
    ori, addf = (mk("sym", p) for p in f.params[1:])
    ip, st = r.ip, r.st
    for p in FIELDS + ADDED:
        a, b = p.split(".")
        t = ip.getattr(st, C, a, None)
        vals[p] = r.elem(t, int(b)) if b.isdigit() else r.field(t, b)
    dm = elems(mat("R:c"))
    res = {}
    for tag, ft, fields in (("ori", ori, FIELDS), ("add", addf, ADDED)):
        fs = {e.file for e in r.ev("fwrite") if mentions(e.file, ft)}
        if len(fs) != 1:
            ctx.unk("write:%s" % tag, where(f), "file not recognised")
            return None
        ls = written(r, fs.pop())
        if ls is None:
            ctx.unk("write:%s" % tag, where(f), "text not reconstructed")
            return None
        pos, lines = {}, []
        n = 0
        for l in ls:
            if l:
                lines.append(n)
            for t in l:
                fv = [x for x in t if x.op != "str"]
                if len(fv) > 1:
                    ctx.bad("write:%s" % tag, where(f), "two values are written without a separator: %s" % ", ".join(show(x, 4) for x in t))
                    return None
                pos[n] = t
                n += 1
        res[tag] = (pos, {}, lines, n)
        for p in fields:
            at = [i for i, t in pos.items() if tokval(t) is not None and compare(tokval(t), vals[p])[0] == "eq"]
            if not at:
                near = [show(x, 4) for t in pos.values() for x in t]
                if all(tokval(t) is not None and not any(x.op in ("call", "unk", "comp", "phi") or x.op == "fn" and x.args[0] == "join" for x in walk(tokval(t))) for t in pos.values()):
                    ctx.bad("write:%s" % tag, where(f), "%s is not written to its file (values written: %s)" % (p, " ".join(near)[:300]))
                else:
                    ctx.unk("write:%s" % tag, where(f), "%s not found in the text" % p)
                continue
            if len(at) > 1:
                ctx.bad("write:%s" % tag, where(f), "%s is written at positions %s" % (p, at))
                continue
            res[tag][1][p] = at[0]
            ctx.hold("write:%s" % tag, where(f), "%s is token %d" % (p, at[0]))
            spec = pos[at[0]][0].args[1] if pos[at[0]][0].op == "fv" else None
            spec = spec.args[0] if isinstance(spec, T) and spec.op == "str" else spec
            if isinstance(spec, str) and spec:
                d = spec.rstrip("fFeEgG")
                if spec[-1] in "fFeE" and "." in d and int(d.split(".")[1] or 0) < 4 or spec[-1] in "dn%":
                    ctx.bad("write:precision", where(f), "%s is written with format %s" % (p, spec))
                else:
                    ctx.hold("write:precision", where(f), "%s with format %s" % (p, spec))
    # the rotation matrix stands between angles and interior orientation
    ipos, fpos = res["ori"][0], res["ori"][1]
    for i in range(3):
        for j in range(3):
            x = elems(elems(dm[i] if False else mat("R:c"))[i])[j]
            at = [k for k, t in ipos.items() if tokval(t) is not None and compare(tokval(t), x)[0] == "eq"]
            ctx.add("write:dm", HOLDS if at == [6 + 3 * i + j] else VIOLATED if at else UNKNOWN, where(f),
                    "rotation matrix element %d,%d is token %s" % (i, j, at))
    for e in r.ev("fwrite", "open"):
        if mentions(e.file, ori):
            ctx.add("write:always", HOLDS if implies(TRUE, e.guard) else VIOLATED if not any(x.op in ("call", "unk") for x in walk(e.guard)) else UNKNOWN,
                    e.where, "the orientation file is written on every path")
    return res


def reader(ctx, q, f, w):
    r = ctx.run("calibration", q)
    if r is None:
        return
    ps = [p for p in f.params if p != "cls"]
    if len(ps) != 2:
        return
    ori, addf = (mk("sym", p) for p in ps)
    given = ne(addf, NONE)
    for tag, ft, fields in (("ori", ori, FIELDS), ("add", addf, ADDED)):
        pos, at, lines, n = w[tag]
        for p in fields:
            if p not in at:
                continue
            a, b = p.split(".")
            try:
                t = r.ip.getattr(r.st, r.value, a, None)
                t = r.elem(t, int(b)) if b.isdigit() else r.field(t, b)
            except (Undecided, TooBig) as ex:
                ctx.unk("read:%s" % tag, where(f), str(ex))
                continue
            t = assume(assume(t, given, True), truth(fn_exists(ori)), True)
            k, src = token(t, n, lines)
            if k is None:
                if const_like(t) or not any(x.op in ("fread", "line", "flines", "call", "unk") for x in walk(t)):
                    ctx.bad("read:%s" % tag, where(f), "%s is not read from the file but is %s" % (p, show(t, 4)))
                else:
                    ctx.unk("read:%s" % tag, where(f), "%s = %s" % (p, show(t, 8)))
                continue
            good = k == at[p] and (src is None or mentions(src, ft))
            ctx.add("read:%s" % tag, HOLDS if good else VIOLATED, where(f), "%s is read from token %d of %s, written at token %d" % (
                p, k, show(src, 3) if src is not None else "the file", at[p]))
    # without an added-parameter file
    for i, p in enumerate(ADDED):
        t = r.elem(r.ip.getattr(r.st, r.value, "added_par", None), i)
        t = assume(t, given, False)
        ctx.same("read:default", where(f), t, num(1 if i == 5 else 0), "%s without an added-parameter file" % p)
    # missing files
    miss = not_(truth(fn_exists(ori)))
    rs = r.ev("raise")
    op = [e for e in r.ev("open") if mentions(e.file, ori)]
    ok = any(implies(miss, e.guard) for e in rs)
    sw = swallowed(r)
    for g, h in sw:
        ctx.bad("read:missing", where(g, h), "an error while reading is swallowed")
    if ok and not sw or op and not sw and all(not implies(e.guard, miss) for e in op) and any(
            implies(miss, e.guard) for e in op):
        ctx.hold("read:missing", where(f), "a missing orientation file raises")
    elif op and all(implies(e.guard, not_(miss)) for e in op):
        ctx.bad("read:missing", where(f), "a missing orientation file is skipped without an error")
    else:
        ctx.unk("read:missing", where(f), "missing file path not recognised")


def fn_exists(x):
    return mk("fn", "exists", x)


def token(t, n, lines):
    """index of the token of the file a number comes from, and the file"""
    if t.op == "phi":
        ks = {token(x, n, lines) for x in t.args[1:]}
        return ks.pop() if len(ks) == 1 else (None, None)
    if t.op == "fn" and t.args[0] == "pfloat":
        k, s, one = idx(t.args[1], n, lines)
        return (k, s) if one else (None, None)
    if t.op == "sel":
        k, s, one = idx(t, n, lines)
        return (k, s) if one else (None, None)
    return None, None


def idx(t, n, lines):
    """(range or index, source, is single) of a part of the token list"""
    r = rng(t, n, lines)
    if r is None:
        return None, None, False
    if isinstance(r[0], int):
        return r[0], r[1], True
    return None, None, False


def rng(t, n, lines):
    if t.op == "split" and (len(t.args) == 1 or t.args[1] in (string(" "), NONE)):
        x = t.args[0]
        while x.op == "fn" and x.args[0] in ("strip", "rstrip", "lstrip"):
            x = x.args[1]
        if x.op == "fread":
            return list(range(n)), x.args[0]
        if x.op == "line":
            j = x.args[1]
            if j.op != "num":
                return None
            j = int(j.args[0])
            if 0 <= j < len(lines):
                return list(range(lines[j], lines[j + 1] if j + 1 < len(lines) else n)), x.args[0]
        return None
    if t.op == "comp":
        i, lo, hi, body = t.args[:4]
        while body.op == "fn" and body.args[0] in ("pfloat", "float"):
            body = body.args[1]
        if body.op == "sel" and body.args[1] is i and lo == ZERO:
            return rng(body.args[0], n, lines)
        return None
    if t.op == "sel":
        b = rng(t.args[0], n, lines)
        if b is None or isinstance(b[0], int):
            return None
        k = t.args[1]
        if k.op == "num" and k.args[0] == int(k.args[0]):
            k = int(k.args[0])
            return (b[0][k], b[1]) if -len(b[0]) <= k < len(b[0]) else None
        if k.op == "slice":
            ab = [None if x is NONE or x == NONE else int(x.args[0]) if x.op == "num" else "?" for x in k.args]
            if "?" in ab:
                return None
            return b[0][slice(*ab)], b[1]
    if t.op in ("snap", "cp"):
        return rng(t.args[0], n, lines)
    return None


def result(ctx):
    f = ctx.func("calibration", "write_calibration")
    r = f and ctx.run("calibration", "write_calibration", {f.params[0]: mk("sym", "cal")}, types={f.params[0]: "Calibration"},
                      sets=cal_sets(f.params[0], "c"))
    if r is None or len(f.params) != 3:
        return
    ori, addf = (mk("sym", p) for p in f.params[1:])
    ok = truth(r.ret()) if not isbool(r.ret()) else r.ret()
    given = ne(addf, NONE)
    wo = or_(*[e.guard for e in r.ev("fwrite") if mentions(e.file, ori)])
    wa = or_(*[e.guard for e in r.ev("fwrite") if mentions(e.file, addf)])
    plain = not any(x.op in ("call", "unk", "havoc") for t in (ok, wo, wa) for x in walk(t))
    want = and_(wo, or_(not_(given), wa))
    if not plain:
        return ctx.unk("result", where(f), "result %s" % show(ok))
    ex = {x for x in walk(ok) if x.op == "exc"}
    for x in ex:
        ctx.same("result", where(f), assume(ok, x, True), FALSE, "no success is reported after an exception while writing")
    for x in ex:
        ok, want = assume(ok, x, False), assume(want, x, False)
    for nm, c in (("with", given), ("without", not_(given))):
        a, b = assume(ok, given, c is given), assume(want, given, c is given)
        ctx.same("result", where(f), a, b, "success %s an added-parameter file is reported exactly when the files are written" % nm)
    if ok == FALSE:
        ctx.bad("result", where(f), "writing never reports success")


def other_writers(ctx):
    f = ctx.func("calibration", "Calibration.write")
    if f is None or len(f.params) != 3:
        return
    r = ctx.run("calibration", "Calibration.write", {"self": mk("sym", "cal")}, types={"self": "Calibration"}, sets=cal_sets("self", "c"))
    w = ctx.func("calibration", "write_calibration")
    r2 = w and ctx.run("calibration", "write_calibration", {w.params[0]: mk("sym", "cal")}, types={w.params[0]: "Calibration"},
                       sets=cal_sets(w.params[0], "c"))
    if not r or not r2:
        return
    m = dict(zip((mk("sym", p) for p in w.params[1:]), (mk("sym", p) for p in f.params[1:])))
    a = written(r)
    b = written(r2)
    if a is None or b is None:
        return
    a = [(e.file, e.guard, e.val) for e in r.ev("fwrite")]
    b = [(subst(e.file, m), subst(e.guard, m), subst(e.val, m)) for e in r2.ev("fwrite")]
    if a == b:
        ctx.hold("method", where(f), "Calibration.write writes the same text")
    elif len(a) == len(b):
        d = [(x, y) for x, y in zip(a, b) if x != y]
        ctx.bad("method", where(f), "Calibration.write writes %s, write_calibration %s" % (show(d[0][0][2], 4), show(d[0][1][2], 4)))
    else:
        fa, fb = {x[0] for x in a}, {x[0] for x in b}
        if fb - fa and not any(x.op in ("call", "unk") for y in fa for x in walk(y)):
            ctx.bad("method", where(f), "Calibration.write does not write %s" % show(sorted(fb - fa, key=lambda t: t.id)[0], 3))
        else:
            ctx.unk("method", where(f), "different text")
