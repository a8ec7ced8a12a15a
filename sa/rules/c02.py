"""C02: objects do not share mutable state."""
import ast
from ..rulekit import *
from ..interp import mutable_expr

TECHNIQUE = ("ownership analysis on the abstract heap: the objects reachable from separately created, copied, read or set values are computed "
             "from the constructors, copy methods, getters and setters, and must be disjoint")

PAIRS = ("Calibration", "MultimediaPar", "SequencePar", "TrackPar", "VolumePar", "ControlPar", "TargetPar", "OrientPar", "CalibrationPar",
         "MultiPlanesPar", "ExaminePar", "Target", "Pathinfo", "Peak", "Frame", "FrameBuf", "copy", "getters", "layer_getters")
HOME = {"copy": ("calibration", "Calibration.copy"), "getters": ("calibration", "Calibration"), "layer_getters": ("parameters", "MultimediaPar")}
SETTERS = {
    "own_setters": ("calibration", "Calibration", ("pos", "ang", "dm", "pp", "rad", "dec", "aff", "glass", "ap")),
    "own_layers": ("parameters", "MultimediaPar", ("n", "d", "zmin", "zmax", "names")),
}


def reach(r, t, path_="", out=None, views=False):
    """[(path, mutable object term)] reachable from a value"""
    out = [] if out is None else out
    if len(out) > 5000 or path_.count(".") > 6:
        return out
    if t.op == "obj":
        o = r.ip.objs.get(t)
        if o is None:
            return out
        again = any(x is t for _, x in out)
        out.append((path_, t))
        if again:
            return out
        if o.view is not None:
            reach(r, o.view, path_, out, views)
        if o.kind == "inst" and o.cls is not None:
            for k, x in o.cls.attrs.items():
                if mutable_expr(x) and (t, k) not in st_fields(r) and k in touched(r.ip.pkg):
                    out.append((path_ + "." + k, mk("cls", o.cls.name, k)))
        # what is stored in a field of a record array is copied; a field that is read is a view of it
        if o.kind == "inst" or views:
            for (b, k), (n, v) in list(r.st.heap.f.items()):
                if b is t and not (o.kind != "inst" and v.op != "obj"):
                    reach(r, v, path_ + "." + k, out, views)
        if o.kind in ("list", "deque", "dict", "recarr"):
            if o.content is not None:
                if o.content.op not in ("sym", "sel", "row", "glob"):
                    reach(r, o.content, path_ + "[]", out, views)
            for k, v, g in r.st.heap.i.get(t, ()):
                if isinstance(v, T) and not (k.op == "slice" and v.op in ("sym", "sel", "row")):
                    reach(r, v, path_ + "[]", out, views)
        elif o.kind == "array" and o.content is not None and o.content.op == "seq":
            for x in elems(o.content):
                if x.op == "obj":
                    reach(r, x, path_ + "[]", out, views)
        return out
    if t.op in ("seq", "phi", "comp", "ite", "repeat") or t.op == "op" and t.args[0] in ("repeat", "concat", "+"):
        for x in t.args:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T):
                    reach(r, y, path_ + ("[]" if t.op != "phi" else ""), out, views)
        return out
    if t.op in ("glob", "cls"):
        out.append((path_, t))
    if t.op in ("sym", "row", "sel"):
        x = t
        while x.op in ("row", "sel"):
            x = x.args[0]
        ty = r.ip.type_of(x)
        if isinstance(ty, tuple) and ty[0] == "list" and t is not x:
            return out  # part of a list is a new list
        x = t
        while x.op in ("row", "sel") and x.args[1].op in ("slice", "ellipsis") or x.op == "row":
            x = x.args[0]
        if x.op == "sym" or r.ip.type_of(t) == "nd" or isinstance(r.ip.type_of(t), tuple) and r.ip.type_of(t)[0] == "list":
            out.append((path_, x))
    return out


def st_fields(r):
    return r.st.heap.f


def touched(pkg):
    """attributes that are changed in place somewhere"""
    if not hasattr(pkg, "_touched"):
        s = set()
        for f in pkg.all_funcs():
            for n in ast.walk(f.node):
                t = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "append", "extend", "insert", "pop", "remove", "clear", "sort", "update", "add", "reverse"):
                    t = n.func.value
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    t = n.value
                elif isinstance(n, ast.AugAssign):
                    t = n.target
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Attribute):
                    s.add(t.attr)
        pkg._touched = s
    return pkg._touched


def mutable(r, t):
    if t.op == "glob":
        return True
    return t.op in ("obj", "sym", "sel")


def check(ctx):
    ctx.rule("The reference programs of sa/spec/own.py create two objects of every class with their defaults, copy a calibration, call all getters "
             "and call all setters with an array; the sets of mutable objects reachable from the two sides, computed on the abstract heap, must not "
             "intersect, no object may be reached twice inside one frame or frame buffer, and no module-level or class-level object may be reached.")
    for nm in PAIRS:
        mod, qual = HOME.get(nm, (None, nm))
        c = None
        for m in ctx.pkg.mods.values():
            if qual.split(".")[0] in m.classes and not m.name.startswith("spec"):
                c = m.classes[qual.split(".")[0]]
        if c is None:
            ctx.unk("anchor", nm, "class not found")
            continue
        wh = "%s:%d (%s)" % (c.mod.path, c.node.lineno, qual)
        r = sp(ctx, "own_" + nm)
        if r is None or r.value.op != "seq":
            ctx.unk("own", wh, "not analysed")
            continue
        a, b = elems(r.value)
        if a.op != "obj":
            ctx.unk("own", wh, "constructor not analysed")
            continue
        vw = "getters" in nm
        ra, rb = reach(r, a, views=vw), reach(r, b, views=vw)
        bad = False
        for p, t in ra + rb:
            if t.op in ("glob", "cls"):
                ctx.bad("shared", wh, "%s%s is the module- or class-level object %s, which all instances share" % (nm, p, show(t)[:100]))
                bad = True
        ids = {t: p for p, t in ra}
        for p, t in rb:
            if t in ids and t.op == "obj":
                ctx.bad("shared", wh, "%s: %s of one object is the same object as %s of the other" % (nm, ids[t] or "the object", p or "it"))
                bad = True
        seen = {}
        for p, t in ra:
            if t in seen and t.op == "obj" and not (p.endswith("file_base") or seen[t].endswith("file_base")):
                ctx.bad("shared", wh, "%s: %s and %s are one object" % (nm, seen[t], p))
                bad = True
            seen[t] = p
        if not bad:
            ctx.hold("own", wh, "%s: %d and %d reachable objects, none shared" % (nm, len(ra), len(rb)))
    setters(ctx)
    particle(ctx)
    repeats(ctx)


def sp(ctx, q, args=None, types=None):
    try:
        return ctx.spec(q, args, types, identity=True, unroll=8)
    except (Undecided, TooBig, RecursionError, KeyError):
        return None


def setters(ctx):
    for q, (m, cl, ps) in SETTERS.items():
        c = ctx.pkg.mods[m].classes.get(cl) if m in ctx.pkg.mods else None
        if c is None:
            continue
        wh = "%s:%d (%s)" % (c.mod.path, c.node.lineno, cl)
        r = sp(ctx, q, types={p: "nd" if m == "calibration" else ("list", None) for p in ps})
        if r is None:
            ctx.unk("setter", wh, "not analysed")
            continue
        vs = [r.value] if r.value.op == "obj" else list(elems(r.value)) if r.value.op == "seq" else []
        bad = not vs
        for v in vs:
            for p, t in reach(r, v):
                if t.op == "sym" and t.args[0] in ps:
                    ctx.bad("setter", wh, "%s keeps the array given to the setter (%s)" % (p, t.args[0]))
                    bad = True
        if not bad:
            ctx.hold("setter", wh, "setters store copies of %s" % ", ".join(ps))


def particle(ctx):
    """a new particle owns its position"""
    f = ctx.func("track", "add_particle")
    if f is None or "pos" not in f.params:
        return ctx.unk("anchor", "add_particle", "not found")
    r = ctx.run("track", "add_particle")
    if r is None:
        return
    pos = mk("sym", "pos")
    bad = False
    for e in r.ev("store"):
        if e.key.op == "str" and e.key.args[0] == "x" and pos in leaves(e.val):
            ctx.bad("particle", e.where, "the new particle keeps the caller's position array")
            bad = True
    if not bad:
        ctx.hold("particle", where(f), "the position of a new particle is a copy")


def leaves(t):
    return leaves(t.args[1]) | leaves(t.args[2]) if t.op == "phi" else {t}


IMMUT = {"int", "float", "str", "bool", "tuple", "Path", "len", "float64", "int32", "max", "min", "range", "bytes"}


def repeats(ctx):
    """[object] * n makes n names for one object"""
    for m in ctx.pkg.mods.values():
        if m.name.startswith("spec_"):
            continue
        for f in list(m.funcs.values()) + [g for c in m.classes.values() for g in c.methods.values()]:
            made = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    made.setdefault(n.targets[0].id, []).append(n.value)
            bad = False
            for n in ast.walk(f.node):
                el = None
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
                    l = n.left if isinstance(n.left, ast.List) else n.right if isinstance(n.right, ast.List) else None
                    if l is not None and l.elts:
                        el = l.elts
                elif isinstance(n, ast.ListComp):
                    el = [n.elt]
                for x in el or ():
                    v = x
                    if isinstance(x, ast.Name) and len(made.get(x.id, ())) == 1 and not any(
                            isinstance(g, ast.comprehension) and any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(g.target))
                            for g in getattr(n, "generators", ())):
                        v = made[x.id][0]
                    elif isinstance(n, ast.ListComp):
                        continue
                    if isobj(ctx, m, v):
                        ctx.bad("repeat", where(f, n), "every element of %s is the same object" % ast.unparse(n)[:80])
                        bad = True
            if not bad:
                ctx.hold("repeat", where(f), "no list repeats one mutable object")


def isobj(ctx, m, v):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp)):
        return True
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and (isinstance(v.left, ast.List) or isinstance(v.right, ast.List)):
        return True
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
        r = ctx.pkg.resolve(m, v.func.id)
        if r and r[0] == "cls":
            return not any("namedtuple" in ast.unparse(b) or "NamedTuple" in ast.unparse(b) or "Enum" in ast.unparse(b) for b in r[1].node.bases)
        return v.func.id in ("list", "dict", "set", "deque")
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
        return ast.unparse(v.func) in ("np.zeros", "np.ones", "np.empty", "np.array", "np.full")
    return False
