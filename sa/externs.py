"""Abstract semantics of the builtins, numpy functions and methods the package uses."""

import ast

from .terms import *
from . import terms as tm

MAXCELLS = 160


def method(ip, b, attr, e, st, ty):
    o = ip.objs.get(b)
    kind = o.kind if o else None
    if kind == "file":
        return file_method(ip, b, attr, e, st)
    a, kw = ip.args(e, st)
    sn = [ip.snap(st, x) for x in a]
    ip.event("extcall", st, e, name="." + attr, args=[b] + list(a), sargs=sn)
    islist = kind in ("list", "deque") or (isinstance(ty, tuple) and ty and ty[0] == "list")
    if attr in ("append", "appendleft", "extend", "insert", "pop", "popleft", "remove", "clear", "reverse", "rotate",
                "sort", "fill", "add", "update", "setdefault", "put", "resize", "itemset", "partition") \
            and not (attr == "add" and kind is None and False):
        return mutator(ip, b, attr, a, sn, kw, e, st, kind, ty)
    base = ip.snap(st, b)
    if attr in ("strip", "rstrip", "lstrip", "lower", "upper", "encode", "decode", "expanduser", "resolve", "as_posix",
                "absolute") and (not sn or base.op in ("line", "sel", "str")):
        if base.op == "str":
            try:
                return string(getattr(base.args[0], attr)(*[x.args[0] for x in sn]))
            except Exception:
                return base
        return base
    if attr == "split":
        t = mk("split", base, *(sn[:1]))
        ip.set_type(t, ("list", "str"))
        return t
    if attr == "splitlines" or attr == "readlines":
        return mk("fn", attr, base)
    if attr == "format" and base.op == "str":
        return str_format(base.args[0], sn, {k: ip.snap(st, v) for k, v in kw.items()})
    if attr == "join" and base.op == "str" and len(sn) == 1 and sn[0].op == "seq":
        parts = []
        for i, x in enumerate(elems(sn[0])):
            if i:
                parts.append(base)
            parts.append(x)
        return fmt(parts) if parts else string("")
    if attr == "join" and base.op == "str":
        return mk("fn", "join", base, *sn)
    if attr in ("startswith", "endswith", "isdigit"):
        return mk("truth", mk("fn", attr, base, *sn))
    if attr in ("exists", "is_file", "is_dir"):
        return mk("truth", mk("fn", attr, base))
    if attr in ("copy", "__copy__"):
        return copy_of(ip, b, st, e, deep=False)
    if attr == "__deepcopy__":
        return copy_of(ip, b, st, e, deep=True)
    if attr == "astype":
        v = base
        if "copy" in kw and ip.snap(st, kw["copy"]) is FALSE and not (sn and _isint_dtype(sn[0])):
            return b
        if sn and _isint_dtype(sn[0]):
            v = toint(ip, base)
        return ip.alloc("array", e, content=v)
    if attr == "view":
        if sn and "recarray" in show(sn[0]) and o is not None:
            o.kind = "recarr" if o.content is None or o.content.op == "fill" else o.kind
        return b
    if attr == "dot":
        return num_or(ip, ip.dot, base, sn[0]) if not (base.op == "seq" and elems(base) and elems(base)[0].op == "seq") else ip.matmul(base, sn[0])
    if attr in ("sum", "max", "min", "all", "any", "mean", "prod"):
        ax = sn[0] if len(sn) == 1 and not kw else ip.snap(st, kw["axis"]) if list(kw) == ["axis"] and not sn else None
        if ax is not None and ax.op == "num":
            t = along(ip, attr, base, int(ax.args[0]))
            if t is not None:
                return t
        if sn or kw:
            return mk("fn", attr, base, *(sn + [ip.snap(st, v) for k, v in sorted(kw.items())]))
        return reduce_(ip, attr, base)
    if attr == "tolist":
        return ip.alloc("list", e, content=(seq(elems(base), "list") if base.op == "seq" else base))
    if attr in ("flatten", "ravel"):
        if base.op == "seq" and all(x.op == "seq" for x in elems(base)):
            return ip.alloc("array", e, content=seq([y for x in elems(base) for y in elems(x)], "array"))
        if base.op == "seq":
            return ip.alloc("array", e, content=base) if attr == "flatten" else b
        v = ip.snap(st, base)
        if v.op == "fill" and v.args[0].op == "num":
            return ip.alloc("array", e, content=mk("fill", v.args[0], mk("fn", "size", base)))
        return ip.alloc("array", e, content=mk("fn", "flatten", base))
    if attr == "reshape":
        return reshape(ip, b, base, sn, e, st)
    if attr == "transpose":
        return mk("fn", "transpose", base)
    if attr in ("keys", "values", "items"):
        t = mk("fn", "dict." + attr, base)
        return t
    if attr == "get" and a:
        if kind == "dict" and sn[0].op == "str":
            if (b, sn[0].args[0]) in st.heap.f:
                return ip.read(st, b, sn[0], e)
        return kwget(base, sn[0], *sn[1:])
    if attr == "index":
        return mk("fn", "index", base, *sn)
    if attr == "item" and not sn and not kw and base.op in ("num", "poly", "fn", "phi"):
        return base
    if attr == "_asdict" or attr == "_fields":
        return mk("fn", attr, base)
    if attr == "_replace":
        return replace_(ip, b, kw, st, e)
    if attr == "__new__":
        return ip.unknown("__new__", e)
    if ip.effects.get("." + attr):
        for j in ip.effects["." + attr]:
            ip.event("mutate", st, e, base=a[j] if j >= 0 else b, how=attr)
    args = [x for x in sn] + [ip.snap(st, v) for k, v in sorted(kw.items())]
    return mk("call", "." + attr, base, *args)


def mutator(ip, b, attr, a, sn, kw, e, st, kind, ty):
    old = ip.snap(st, b)
    loc = e.func.value
    val = a[0] if a else None
    ip.event("mutate", st, e, base=b, how=attr, val=val, args=a)
    if b.op == "seq":
        # a literal value: turn into an object bound to the name
        b = ip.base(loc, st)
    new = None
    ret = NONE
    if attr == "append":
        if old.op == "seq":
            cur = _refs(ip, st, b, old)
            new = seq(cur + (val,), old.args[0])
        else:
            new = mk("appended", old, ip.snap(st, val))
            ip.added[new] = val
    elif attr == "extend":
        new = add(old, sn[0]) if old.op == "seq" and sn[0].op == "seq" else mk("fn", "extend", old, sn[0])
    elif attr == "clear":
        new = seq((), "list")
    elif attr in ("rotate",):
        new = mk("rotated", old, *sn)
    elif attr == "fill":
        if old.op == "seq":
            new = seq([sn[0]] * len(elems(old)), old.args[0]) if all(x.op != "seq" for x in elems(old)) else mk("fn", "filled", old, sn[0])
        elif old.op == "fill":
            new = mk("fill", sn[0], old.args[1])
        else:
            new = mk("fill", sn[0], length(old))
    elif attr == "pop" or attr == "popleft":
        if old.op == "seq" and elems(old) and (not sn or is_int_const(sn[0])):
            el = list(_refs(ip, st, b, old))
            j = int(sn[0].args[0]) if sn else (-1 if attr == "pop" else 0)
            if -len(el) <= j < len(el):
                ret = el.pop(j)
                new = seq(el, old.args[0])
        if new is None:
            ret = mk("fn", "popped", old, *sn)
            new = mk("fn", "afterpop", old, *sn)
    elif attr == "setdefault":
        ret = mk("fn", "setdefault", old, *sn)
        new = mk("fn", "aftersetdefault", old, *sn)
    else:
        new = mk("fn", "after_" + attr, old, *(sn + [ip.snap(st, v) for k, v in sorted(kw.items())]))
    st.heap.n += 1
    st.heap.i[b] = ((HAVOC_(), new, None),)
    ip.set_type(new, ip.type_of(b))
    return ret


def HAVOC_():
    from .interp import HAVOC
    return HAVOC


def _refs(ip, st, b, old):
    """elements of a list as references (objects stay objects)"""
    out = []
    for j in range(len(elems(old))):
        out.append(ip.read(st, b, num(j), None, True) if b.op != "seq" else elems(b)[j])
    return tuple(out)


def file_method(ip, b, attr, e, st):
    f = ip.objs[b].content
    if attr in ("readline", "__next__", "next"):
        pos = ip.read(st, b, string("#pos"))
        ip.args(e, st)
        ip.write(st, b, string("#pos"), add(pos, ONE), e)
        t = mk("line", f, pos)
        ip.types[t] = "str"
        return t
    if attr == "readlines":
        pos = ip.read(st, b, string("#pos"))
        t = mk("flines", f, pos)
        ip.types[t] = ("list", "str")
        return t
    if attr == "read":
        t = mk("fread", f)
        ip.types[t] = "str"
        return t
    a, kw = ip.args(e, st)
    if attr in ("write", "writelines"):
        ip.event("fwrite", st, e, file=f, val=ip.snap(st, a[0]) if a else NONE, lines=attr == "writelines")
        return NONE
    if attr in ("close", "flush", "seek"):
        ip.event("fclose", st, e, file=f)
        return NONE
    return mk("call", "file." + attr, f)


def str_format(s, a, kw):
    import re
    parts, pos, i = [], 0, 0
    for m in re.finditer(r"\{([^{}:!]*)(?:![a-z])?(?::([^{}]*))?\}", s):
        parts.append(string(s[pos:m.start()]))
        pos = m.end()
        nm = m.group(1)
        if nm == "":
            x = a[i] if i < len(a) else mk("unk", "format", 0, 0, "")
            i += 1
        elif nm.isdigit():
            x = a[int(nm)] if int(nm) < len(a) else mk("unk", "format", 0, 0, "")
        else:
            x = kw.get(nm) or mk("unk", "format", 0, 0, "")
        sp = m.group(2) or ""
        parts.append(x if x.op == "str" and not sp else mk("fv", x, sp))
    parts.append(string(s[pos:]))
    return fmt(parts)


# ---------------------------------------------------------------- helpers
def num_or(ip, f, *a):
    try:
        return f(*a)
    except TooBig:
        return mk("op", f.__name__, *a)


def _isint_dtype(t):
    s = show(t)
    return s.split(".")[-1].rstrip(")'") in ("int", "int32", "int64", "int_", "uint8", "intp") or s == "builtin('int')"


def _strlike(ip, t):
    if t.op in ("str", "fmt", "line", "fread", "split"):
        return True
    if t.op == "sel" and t.args[0].op in ("split", "flines"):
        return True
    if t.op == "sel" and t.args[0].op in ("line", "str"):
        return True
    if t.op == "phi":
        return _strlike(ip, t.args[1]) or _strlike(ip, t.args[2])
    return ip.type_of(t) == "str"


def toint(ip, x):
    if x.op == "seq":
        return seq([toint(ip, y) for y in elems(x)], x.args[0])
    if x.op == "phi":
        return phi(x.args[0], toint(ip, x.args[1]), toint(ip, x.args[2]))
    if isbool(x):
        return x if x.op == "bool" else phi(x, ONE, ZERO)
    if x.op == "num":
        v = x.args[0]
        return num(int(v))
    if _strlike(ip, x):
        if x.op == "str":
            try:
                return num(int(x.args[0]))
            except ValueError:
                pass
        if ip.lines and x.op == "line" and is_int_const(x.args[1]) and int(x.args[1].args[0]) in ip.lines:
            return ip.lines[int(x.args[1].args[0])]
        t = mk("fn", "pint", x)
        INTS.add(t)
        return t
    if is_int(x):
        return x
    if x.op == "fn" and x.args[0] in ("floor", "ceil", "round", "floordiv"):
        INTS.add(x)
        return x
    t = mk("fn", "int", x)
    return t


def tofloat(ip, x):
    if x.op == "str":
        try:
            return num(float(x.args[0]))
        except ValueError:
            return mk("fn", "pfloat", x)
    if x.op == "phi":
        return phi(x.args[0], tofloat(ip, x.args[1]), tofloat(ip, x.args[2]))
    if isbool(x) and x.op != "bool":
        return phi(x, ONE, ZERO)
    if _strlike(ip, x):
        return mk("fn", "pfloat", x)
    return x


def as_array(t):
    """value term with nested sequences marked as arrays"""
    if t.op == "seq":
        return seq([as_array(x) for x in elems(t)], "array")
    return t


def flat_snap(v):
    """a list of known length with known places overwritten, as a plain list"""
    if v.op != "snap" or not isinstance(v.args[1], tuple):
        return v
    b = flat_snap(v.args[0])
    if b.op != "seq":
        return v
    el = list(elems(b))
    for k, x in v.args[1]:
        if not isinstance(k, T) or k.op != "num" or k.args[0].denominator != 1 or not isinstance(x, T):
            return v
        i = int(k.args[0])
        if 0 <= i < len(el):
            el[i] = x
    return seq(el, b.args[0])


def reduce_(ip, how, v):
    v = flat_snap(v)
    if v.op == "seq" and all(x.op != "seq" for x in elems(v)):
        el = elems(v)
        if how == "sum":
            r = ZERO
            for x in el:
                r = add(r, x if not isbool(x) else phi(x, ONE, ZERO))
            return r
        if how in ("all", "any"):
            return (and_ if how == "all" else or_)(*[truth(x) for x in el])
        if how in ("max", "min") and el:
            return (smax if how == "max" else smin)(*el)
        if how == "mean" and el:
            return div(reduce_(ip, "sum", v), num(len(el)))
        if how == "prod":
            r = ONE
            for x in el:
                r = mul(r, x)
            return r
    if v.op == "seq" and how == "sum" and all(x.op == "seq" for x in elems(v)):
        r = ZERO
        for x in elems(v):
            r = add(r, reduce_(ip, how, x))
        return r
    if v.op == "seq" and how in ("all", "any") and all(x.op == "seq" for x in elems(v)):
        return (and_ if how == "all" else or_)(*[reduce_(ip, how, x) for x in elems(v)])
    if v.op == "comp":
        idx, lo, hi, x, g = v.args
        if how == "sum":
            d = x if not isbool(x) else phi(x, ONE, ZERO)
            return ip.mksum(idx, lo, hi, phi(g, d, ZERO))
        if how == "any":
            return ip.exists(idx, lo, hi, and_(g, truth(x)))
        if how == "all":
            return not_(ip.exists(idx, lo, hi, and_(g, not_(truth(x)))))
        if how in ("max", "min") and g is TRUE:
            return mk("r" + how, idx, lo, hi, x)
    if v.op == "fill" and how == "sum" and v.args[0] is ZERO:
        return ZERO
    if how in ("all", "any"):
        return mk("truth", mk("fn", how, v))
    return mk("fn", how, v)


def along(ip, how, v, axis):
    """reduction of an explicit matrix along an axis"""
    v = flat_snap(v)
    if v.op != "seq" or not elems(v) or any(x.op != "seq" or len(elems(x)) != len(elems(elems(v)[0])) for x in elems(v)):
        return None
    rows = [elems(x) for x in elems(v)]
    if any(y.op == "seq" for x in rows for y in x):
        return None
    if axis in (0, -2):
        rows = list(zip(*rows))
    elif axis not in (1, -1):
        return None
    return seq([reduce_(ip, how, seq(list(x), "array")) for x in rows], "array")


def fill_content(v, sh):
    """content of an array filled with v of the given shape"""
    if sh.op == "seq" and len(elems(sh)) == 1:
        sh = elems(sh)[0]
    if sh.op == "seq" and all(is_int_const(x) for x in elems(sh)):
        n = 1
        for x in elems(sh):
            n *= int(x.args[0])
        if 0 < n <= MAXCELLS:
            def build(d):
                if not d:
                    return v
                return seq([build(d[1:])] * int(d[0].args[0]), "array")
            return build(list(elems(sh)))
    if is_int_const(sh) and 0 <= int(sh.args[0]) <= 40:
        return seq([v] * int(sh.args[0]), "array")
    return mk("fill", v, sh)


def reshape(ip, b, base, sn, e, st):
    sh = sn[0] if len(sn) == 1 else seq(sn, "tuple")
    if base.op == "seq" and sh.op == "seq" and all(is_int_const(x) for x in elems(sh)) and all(x.op != "seq" for x in elems(base)):
        d = [int(x.args[0]) for x in elems(sh)]
        n = len(elems(base))
        if d.count(-1) == 1:
            k = 1
            for x in d:
                if x > 0:
                    k *= x
            d[d.index(-1)] = n // k if k else 0
        if len(d) == 2 and d[0] * d[1] == n:
            el = elems(base)
            return ip.alloc("array", e, content=seq([seq(el[i * d[1]:(i + 1) * d[1]], "array") for i in range(d[0])], "array"))
        if len(d) == 1:
            return b
    return mk("fn", "reshape", base, sh)


def copy_of(ip, b, st, e, deep):
    if b.op == "phi":
        return phi(b.args[0], copy_of(ip, b.args[1], st, e, deep), copy_of(ip, b.args[2], st, e, deep))
    if is_const(b) or b.op in ("seq", "poly") and not deep:
        if b.op == "seq":
            return ip.alloc("list" if b.args[0] == "list" else "array", e, content=b)
        return b
    s = ip.snap(st, b)
    ty = ip.type_of(b)
    o = ip.objs.get(b)
    if isinstance(ty, tuple) and ty[0] == "cls":
        n = ip.alloc("inst", e, cls=ty[1], content=s)
    elif o is not None and o.kind in ("list", "deque", "dict"):
        n = ip.alloc(o.kind, e, content=s, etype=o.etype)
    elif isinstance(ty, tuple) and ty[0] == "list":
        n = ip.alloc("list", e, content=s, etype=ty[1])
    else:
        n = ip.alloc("array", e, content=s)
        if o is not None and o.kind == "recarr":
            ip.objs[n].kind = "recarr"
    ip.objs[n].deep = deep
    ip.event("copy", st, e, src=b, dst=n, deep=deep)
    return n


def replace_(ip, b, kw, st, e):
    ty = ip.type_of(b)
    cls = ty[1] if isinstance(ty, tuple) and ty[0] == "cls" else None
    if cls is None:
        return ip.unknown("replace", e)
    n = ip.alloc("inst", e, cls=cls, content=ip.snap(st, b))
    ip.event("new", st, e, cls=cls.name, args=[b], kw=dict(kw), how="replace")
    for k, v in kw.items():
        if k != "**":
            ip.write(st, n, string(k), v, e, quiet=True)
    return n


# ---------------------------------------------------------------- builtins
def builtin(ip, nm, e, st):
    if nm == "super":
        f = ip.stack[-1]
        slf = st.env.get(f.params[0]) if f.params else None
        if slf is not None and f.cls is not None:
            t = mk("supercls", f.cls.name, slf)
            ip.types[t] = ("cls", f.cls)
            return t
        return ip.unknown("super", e)
    if nm in ("range", "enumerate", "zip", "reversed"):
        try:
            it = ip.iterable(e, st)
            if "cond" in it:
                it = ip.unfiltered(st, it, e)
        except Exception:
            it = None
        if it is not None and it.get("step") is ONE and nm != "reversed":
            depth = len(ip.loops)
            idx = mk("idx", depth + 50, it["lo"], it["hi"])
            n = sub(it["hi"], it["lo"])
            if is_int_const(n) and 0 <= n.args[0] <= 24:
                return seq([it["elem"](add(it["lo"], num(j))) for j in range(int(n.args[0]))], "list")
            return mk("comp", idx, it["lo"], it["hi"], it["elem"](idx), TRUE)
        a, kw = ip.args(e, st)
        return mk("fn", nm, *[ip.snap(st, x) for x in a])
    a, kw = ip.args(e, st)
    sn = [ip.snap(st, x) for x in a]
    ip.event("extcall", st, e, name=nm, args=list(a), sargs=sn, kw=kw)
    if nm == "len":
        return ip.len_of(st, a[0])
    if nm in ("float", "complex"):
        return tofloat(ip, sn[0]) if sn else ZERO
    if nm == "int":
        return toint(ip, sn[0]) if sn else ZERO
    if nm == "bool":
        return truth(sn[0]) if sn else FALSE
    if nm == "str":
        x = sn[0] if sn else string("")
        if x.op in ("str", "fmt") or _strlike(ip, x) or ip.type_of(x) == "Path":
            return x
        return fmt([mk("fv", x, "")])
    if nm == "repr":
        return fmt([mk("fv", sn[0], "!r")])
    if nm == "abs":
        return num_or(ip, absval, sn[0])
    if nm in ("max", "min"):
        if len(sn) == 1 and not kw:
            return reduce_(ip, nm, sn[0])
        if kw:
            return mk("fn", nm, *sn)
        t = (smax if nm == "max" else smin)(*sn)
        return tm.assume(t, and_(ip.prefix, st.pc), True) if t.op in ("max", "min") else t
    if nm == "pow":
        return num_or(ip, power, sn[0], sn[1])
    if nm == "round":
        return rnd(sn[0], sn[1] if len(sn) > 1 else None)
    if nm == "sum":
        r = reduce_(ip, "sum", sn[0])
        return add(r, sn[1]) if len(sn) > 1 else r
    if nm in ("any", "all"):
        return reduce_(ip, nm, sn[0])
    if nm in ("list", "tuple"):
        if not sn:
            return ip.alloc("list", e, content=seq((), "list")) if nm == "list" else seq((), "tuple")
        v = sn[0]
        if v.op == "seq":
            src = a[0]
            if src.op == "seq":
                v = src
            elif src.op == "obj":
                v = seq(_refs(ip, st, src, v), v.args[0])
            v = seq(elems(v), nm)
        et = None
        ty = ip.type_of(a[0])
        if isinstance(ty, tuple) and ty[0] == "list":
            et = ty[1]
        return ip.alloc("list", e, content=v, etype=et) if nm == "list" else v
    if nm == "dict":
        o = ip.alloc("dict", e, content=sn[0] if sn else mk("emptydict"))
        for k, v in kw.items():
            if k != "**":
                ip.write(st, o, string(k), v, e, quiet=True)
        return o
    if nm == "set":
        return mk("fn", "set", *sn)
    if nm == "sorted":
        return mk("fn", "sorted", *(sn + [ip.snap(st, v) for k, v in sorted(kw.items())]))
    if nm == "map":
        f, xs = a[0], sn[1:]
        if len(xs) == 1:
            return map_(ip, f, xs[0], e, st)
        return mk("fn", "map", *sn)
    if nm == "filter":
        return mk("fn", "filter", *sn)
    if nm == "isinstance":
        return isinst(ip, a[0], sn, st)
    if nm == "issubclass" or nm == "callable":
        return mk("truth", mk("fn", nm, *sn))
    if nm == "hasattr":
        b = sn[0]
        while b.op == "snap":
            b = b.args[0]
        if len(sn) == 2 and sn[1].op == "str" and b.op == "sel" and b.args[1].op == "str":
            fl = ip.pkg.record_fields(b.args[1].args[0])
            if fl is not None:
                return TRUE if sn[1].args[0] in fl else FALSE
        return mk("truth", mk("fn", "hasattr", *sn))
    if nm == "getattr":
        if sn[1].op == "str":
            return ip.getattr(st, a[0], sn[1].args[0], e)
        t = mk("dynattr", ip.snap(st, a[0]), sn[1])
        # stores made through the same dynamic name
        r = ip.read(st, a[0], mk("dynkey", sn[1]), e, True)
        ip.note_read(st, a[0], mk("dynkey", sn[1]), r, e)
        return r
    if nm == "setattr":
        if sn[1].op == "str":
            ip.write(st, a[0], sn[1], a[2], e)
        else:
            ip.write(st, a[0], mk("dynkey", sn[1]), a[2], e)
        return NONE
    if nm == "open":
        mode = kw.get("mode") or (a[1] if len(a) > 1 else string("r"))
        f = ip.alloc("file", e, content=mk("file", sn[0]))
        ip.write(st, f, string("#pos"), ZERO, e, quiet=True)
        ip.event("open", st, e, path=sn[0], mode=mode, file=ip.objs[f].content)
        return f
    if nm == "print":
        if "file" in kw and kw["file"].op == "obj" and ip.objs[kw["file"]].kind == "file":
            end = kw.get("end", string("\n"))
            parts = []
            for j, x in enumerate(sn):
                if j:
                    parts.append(kw.get("sep", string(" ")))
                parts.append(x if x.op in ("str", "fmt") else mk("fv", x, ""))
            ip.event("fwrite", st, e, file=ip.objs[kw["file"]].content, val=fmt(parts + [end]), lines=False)
        return NONE
    if nm == "type":
        ty = ip.type_of(a[0])
        if isinstance(ty, tuple) and ty[0] == "cls":
            return ip.wrap(("cls", ty[1]))
        return mk("fn", "type", sn[0])
    if nm == "id":
        return mk("fn", "id", *a)
    if nm == "divmod":
        return seq([fn("floordiv", *sn), fn("mod", *sn)], "tuple")
    if nm == "iter":
        return a[0]
    if nm == "next":
        if a and a[0].op == "obj" and ip.objs[a[0]].kind == "file":
            pos = ip.read(st, a[0], string("#pos"))
            ip.write(st, a[0], string("#pos"), add(pos, ONE), e)
            t = mk("line", ip.objs[a[0]].content, pos)
            ip.types[t] = "str"
            return t
        if a and a[0].op == "comp":
            idx, lo, hi, x, g = a[0].args
            w = ip.witness(x, idx, lo, hi, g, ("next", e.lineno))
            return phi(ip.exists(idx, lo, hi, g), w, sn[1]) if len(sn) > 1 else w
        return mk("fn", "next", *sn)
    if nm == "vars":
        return mk("fn", "vars", *sn)
    if nm == "ord" or nm == "chr" or nm == "hash" or nm == "format":
        return mk("fn", nm, *sn)
    if nm.endswith("Error") or nm.endswith("Exception") or nm in ("StopIteration", "SystemExit"):
        return mk("excobj", nm, *sn)
    if nm == "object":
        return ip.alloc("inst", e)
    ip.event("calldyn", st, e, f=mk("builtin", nm), args=a)
    return mk("call", nm, *sn)


def isinst(ip, x, sn, st):
    ty = ip.type_of(x)
    t = sn[1]
    names = [t] if t.op != "seq" else list(elems(t))
    if x.op == "obj" and ip.objs[x].kind == "inst" and ip.objs[x].cls is not None:
        cl = {c.name for c in ip.pkg.mro(ip.objs[x].cls)}
        return num(any(n.op == "cls" and n.args[0] in cl for n in names))
    if x.op == "none":
        return FALSE
    s = sorted((n.args[0].split(".")[-1] if n.op in ("cls", "builtin", "ext") else show(n)) for n in names)
    if x.op == "obj" and ip.objs[x].kind in ("list", "array", "dict"):
        k = {"list": "list", "array": "ndarray", "dict": "dict"}[ip.objs[x].kind]
        return num(k in s)
    if x.op in ("str", "fmt"):
        return num("str" in s)
    if isinstance(ty, tuple) and ty and ty[0] == "cls":
        cl = {c.name for c in ip.pkg.mro(ty[1])}
        if any(n.op == "cls" and n.args[0] in cl for n in names) and x.op in ("sym", "sel"):
            return mk("isinst", x, ",".join(s))
    return mk("isinst", ip.snap(st, x), ",".join(s))


def map_(ip, f, xs, e, st):
    def app(x):
        if f.op == "builtin" and f.args[0] in ("float",):
            return tofloat(ip, x)
        if f.op == "builtin" and f.args[0] in ("int",):
            return toint(ip, x)
        if f.op == "builtin" and f.args[0] == "str":
            return x if x.op in ("str", "fmt") else fmt([mk("fv", x, "")])
        if f.op in ("func", "bound"):
            fu, cl = ip.closures[f]
            if f.op == "bound":
                return ip.snap(st, ip.call_func(fu, [cl, x], {}, st, e))
            return ip.snap(st, ip.call_func(fu, [x], {}, st, e, closure=cl))
        return mk("call", "apply", f, x)
    if xs.op == "seq":
        return seq([app(x) for x in elems(xs)], "list")
    idx = mk("idx", len(ip.loops) + 60, ZERO, length(xs))
    x = sel(xs, idx)
    if xs.op == "split":
        ip.types[x] = "str"
    return mk("comp", idx, ZERO, length(xs), app(x), TRUE)


def rnd(x, d=None):
    if d is not None and d is not ZERO:
        return mk("fn", "round", x, d)
    if x.op == "num":
        return num(round(x.args[0]))
    t = fn("round", x)
    return t


# ---------------------------------------------------------------- numpy & co
ELEM = {"sin", "cos", "tan", "arctan", "arcsin", "arccos", "exp", "log", "floor", "ceil"}
ALIAS = {"asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "absolute": "abs", "fabs": "abs",
         "amax": "max", "amin": "min", "hypot": "hypot", "rint": "round", "around": "round", "power": "pow",
         "round_": "round"}


def ext(ip, nm, e, st):
    last = nm.split(".")[-1]
    a, kw = ip.args(e, st)
    sn = [ip.snap(st, x) for x in a]
    ip.event("extcall", st, e, name=nm, args=list(a), sargs=sn, kw=kw)
    n0 = len(ip.events)
    try:
        r = _ext(ip, nm, ALIAS.get(last, last), a, sn, kw, e, st)
    except TooBig:
        return mk("op", nm, *sn)
    for k in ("out", "output"):
        # library functions store their result in the array given as out
        if k in kw and kw[k].op in ("sym", "sel", "obj", "phi", "row") and not any(x.kind == "store" for x in ip.events[n0:]):
            v = ip.snap(st, r)
            ip.write(st, kw[k], mk("slice", NONE, NONE, NONE), v, e)
            return kw[k]
    return r


def lift(f, x):
    if x.op == "seq":
        return seq([lift(f, y) for y in elems(x)], x.args[0])
    return f(x)


def lift2(f, x, y):
    if x.op == "seq" and y.op == "seq" and len(elems(x)) == len(elems(y)):
        return seq([lift2(f, p, q) for p, q in zip(elems(x), elems(y))], "array")
    manyvals = lambda t: t.op == "fn" and t.args[0] in ("max", "min", "sum", "mean", "prod") and len(t.args) > 2
    if x.op == "seq":
        return seq([lift2(f, p, sel(y, num(i)) if manyvals(y) else y) for i, p in enumerate(elems(x))], "array")
    if y.op == "seq":
        return seq([lift2(f, sel(x, num(i)) if manyvals(x) else x, q) for i, q in enumerate(elems(y))], "array")
    return f(x, y)


def opq(ip, nm, sn, kw, st, nd=True):
    t = mk("fn", nm, *(sn + [mk("kwarg", k, ip.snap(st, v)) for k, v in sorted(kw.items()) if k not in ("out",)]))
    if nd and t not in ip.types:
        ip.types[t] = "nd"
    return t


def _ext(ip, nm, last, a, sn, kw, e, st):
    if last in ELEM:
        if ip.rec_arith and last in ("arcsin", "arccos", "log"):
            ip.event("fnapp", st, e, name=last, arg=sn[0])
        return lift(lambda x: fn(last, x), sn[0])
    if last == "sqrt":
        if ip.rec_arith:
            ip.event("fnapp", st, e, name="sqrt", arg=sn[0])
        return sqrt(sn[0])
    if last == "square":
        return lift(lambda x: mul(x, x), sn[0])
    if last == "abs":
        return absval(sn[0])
    if last == "hypot":
        return lift2(lambda x, y: sqrt(add(mul(x, x), mul(y, y))), sn[0], sn[1])
    if last == "pow":
        return power(sn[0], sn[1])
    if last in ("multiply", "add", "subtract", "divide", "true_divide", "negative"):
        f = {"multiply": mul, "add": add, "subtract": sub, "divide": div, "true_divide": div, "negative": neg}[last]
        if last in ("divide", "true_divide") and ip.rec_arith:
            ip.event("div", st, e, num=sn[0], den=sn[1])
        x = [as_array(y) for y in sn[:2]]
        r = f(*x) if len(x) == 2 else f(x[0])
        if "out" in kw or len(a) == 3:
            out = kw.get("out", a[2] if len(a) == 3 else None)
            if out is not None and out.op not in ("none",):
                ip.write(st, out, mk("slice", NONE, NONE, NONE), r, e)
                return out
        return r
    if last in ("arctan2", "fmod", "mod", "remainder"):
        return mk("fn", last, *sn)
    if last == "round":
        return lift(lambda x: rnd(x, sn[1] if len(sn) > 1 else None), sn[0])
    if last in ("maximum", "minimum", "fmax", "fmin"):
        f = smax if last.endswith("max") or last == "maximum" else smin
        return lift2(f, as_array(sn[0]), as_array(sn[1]))
    if last == "clip" and len(sn) == 3:
        r = sn[0]
        if sn[1].op != "none":
            r = lift2(smax, r, sn[1])
        if sn[2].op != "none":
            r = lift2(smin, r, sn[2])
        return r
    if last in ("max", "min", "sum", "mean", "prod"):
        ax = sn[1] if len(sn) == 2 and not kw else ip.snap(st, kw["axis"]) if list(kw) == ["axis"] and len(sn) == 1 else None
        if ax is not None and ax.op == "num":
            t = along(ip, last, sn[0], int(ax.args[0]))
            if t is not None:
                return t
        if len(sn) > 1 or any(k not in ("dtype",) for k in kw):
            return opq(ip, last, sn, kw, st)
        return reduce_(ip, last, sn[0])
    if last in ("any", "all"):
        if len(sn) > 1 or kw:
            return opq(ip, last, sn, kw, st)
        return reduce_(ip, last, sn[0]) if not isbool(sn[0]) else sn[0]
    if last in ("isnan", "isfinite", "isinf"):
        def f(x):
            if x.op == "nan":
                return num(last == "isnan")
            if x.op == "num":
                return num(last == "isfinite")
            return mk("truth", mk("fn", last, x))
        return lift(f, sn[0])
    if last in ("logical_not",):
        return lift(lambda x: not_(truth(x)), sn[0])
    if last in ("logical_and", "logical_or"):
        return lift2(lambda x, y: (and_ if last.endswith("and") else or_)(truth(x), truth(y)), sn[0], sn[1])
    if last in ("float64", "float32", "float_", "double"):
        return tofloat(ip, sn[0]) if sn else ZERO
    if last in ("int32", "int64", "int_", "uint8", "intp", "int16", "uint64", "uint32") and sn:
        return toint(ip, sn[0])
    if last in ("array",):
        v = as_array(sn[0])
        dt = kw.get("dtype", a[1] if len(a) > 1 else None)
        if dt is not None and _isint_dtype(dt) and v.op == "seq":
            v = toint(ip, v)
        if v.op == "num" or v.op == "poly" and False:
            return v
        if dt is not None and _recdtype(dt):
            o = ip.alloc("recarr", e, content=None)
            ip.objs[o].init = v
            ip.objs[o].dtype = dt
            return o
        return ip.alloc("array", e, content=v)
    if last in ("asarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "asfortranarray", "squeeze"):
        if a[0].op == "obj" and ip.objs[a[0]].kind in ("list",) or a[0].op == "seq":
            return ip.alloc("array", e, content=as_array(sn[0]))
        return a[0]
    if last in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "eye", "identity"):
        if last in ("eye", "identity"):
            n = sn[0]
            if is_int_const(n) and n.args[0] <= 12:
                k = int(n.args[0])
                return ip.alloc("array", e, content=seq([seq([ONE if i == j else ZERO for j in range(k)], "array") for i in range(k)], "array"))
            return ip.alloc("array", e, content=mk("fn", "eye", n))
        sh = kw.get("shape", sn[0] if sn else NONE)
        sh = ip.snap(st, sh)
        if last.endswith("_like"):
            s = sn[0]
            while s.op == "snap":
                s = s.args[0]
            if s.op == "seq":
                def build(t):
                    return seq([build(x) for x in elems(t)], "array") if t.op == "seq" else None
                v = {"zeros_like": ZERO, "ones_like": ONE, "empty_like": mk("uninit"),
                     "full_like": sn[1] if len(sn) > 1 else ZERO}[last]
                def build(t):
                    return seq([build(x) for x in elems(t)], "array") if t.op == "seq" else v
                return ip.alloc("array", e, content=build(s))
            sh = s.args[1] if s.op == "fill" else mk("shape", s)
        v = {"z": ZERO, "o": ONE, "e": mk("uninit")}.get(last[0])
        dtpos = 2 if last.startswith("full") else 1
        if last.startswith("full"):
            v = ip.snap(st, kw.get("fill_value", sn[1] if len(sn) > 1 else ZERO))
        dt = kw.get("dtype", a[dtpos] if len(a) > dtpos else None)
        if dt is not None and _recdtype(dt):
            o = ip.alloc("recarr", e, content=None)
            ip.objs[o].zero = last == "zeros"
            ip.objs[o].shape = sh
            return o
        if dt is not None and (show(dt).endswith("bool')") or show(dt).endswith("bool_')")) and v.op == "num":
            v = num(v.args[0] != 0)
        o = ip.alloc("array", e, content=fill_content(v, sh))
        ip.objs[o].shape = sh
        return o
    if last == "recarray":
        o = ip.alloc("recarr", e, content=None)
        ip.objs[o].zero = False
        ip.objs[o].shape = sn[0] if sn else NONE
        return o
    if last == "arange":
        if len(sn) == 1 and is_int(sn[0]):
            if is_int_const(sn[0]) and 0 <= sn[0].args[0] <= 40:
                return ip.alloc("array", e, content=seq([num(j) for j in range(int(sn[0].args[0]))], "array"))
            idx = mk("idx", len(ip.loops) + 70, ZERO, sn[0])
            return ip.alloc("array", e, content=mk("comp", idx, ZERO, sn[0], idx, TRUE))
        return opq(ip, "arange", sn, kw, st)
    if last == "dot":
        x, y = as_array(sn[0]), as_array(sn[1])
        r = ip.matmul(x, y) if x.op == "seq" and elems(x) and elems(x)[0].op == "seq" else ip.dot(x, y)
        if "out" in kw:
            ip.write(st, kw["out"], mk("slice", NONE, NONE, NONE), r, e)
        return r if r.op != "seq" else ip.alloc("array", e, content=r)
    if last in ("matmul",):
        r = ip.matmul(as_array(sn[0]), as_array(sn[1]))
        return r
    if last in ("vdot", "inner"):
        return ip.dot(sn[0], sn[1])
    if last == "cross" and len(sn) == 2:
        x, y = sn
        if x.op == "seq" and y.op == "seq" and len(elems(x)) == 3 == len(elems(y)):
            p, q = elems(x), elems(y)
            return ip.alloc("array", e, content=seq([sub(mul(p[1], q[2]), mul(p[2], q[1])), sub(mul(p[2], q[0]), mul(p[0], q[2])),
                                                     sub(mul(p[0], q[1]), mul(p[1], q[0]))], "array"))
        return opq(ip, "cross", sn, kw, st)
    if last == "norm":
        if len(sn) == 1 and not kw and sn[0].op == "seq" and all(x.op != "seq" for x in elems(sn[0])):
            return sqrt(ip.dot(sn[0], sn[0]))
        if len(sn) == 1 and not kw:
            return sqrt(ip.dot(sn[0], sn[0]))
        return opq(ip, "norm", sn, kw, st)
    if last == "transpose" and sn[0].op == "seq" and elems(sn[0]) and elems(sn[0])[0].op == "seq":
        return transpose(sn[0])
    if last == "where":
        if len(sn) == 3:
            c = sn[0]
            if c.op == "seq":
                return lift_where(c, sn[1], sn[2])
            if isbool(c):
                return phi(c, sn[1], sn[2])
        return opq(ip, "where", sn, kw, st)
    if last in ("array_equal", "allclose", "isclose", "array_equiv"):
        x, y = as_array(sn[0]), as_array(sn[1])
        if last == "array_equal":
            if x is y:
                return TRUE
            if x.op == "seq" and y.op == "seq":
                return reduce_(ip, "all", eq(x, y)) if len(elems(x)) == len(elems(y)) else FALSE
        ty = "aeq" if last.startswith("array") else last
        t = mk("truth", mk("fn", ty, *(sorted((x, y), key=lambda t: t.id) + list(sn[2:]) + [mk("kwarg", k, ip.snap(st, v)) for k, v in sorted(kw.items())])))
        return t
    if last == "copy" and nm.startswith("numpy") or nm in ("copy.copy", "copy"):
        return copy_of(ip, a[0], st, e, deep=False)
    if last == "deepcopy":
        return copy_of(ip, a[0], st, e, deep=True)
    if last == "replace" and nm.startswith("dataclasses"):
        return replace_(ip, a[0], kw, st, e)
    if last == "asdict":
        ty = ip.type_of(a[0])
        o = ip.alloc("dict", e, content=mk("emptydict"))
        if isinstance(ty, tuple) and ty[0] == "cls":
            for f, an, d, c in ip.pkg.fields(ty[1]):
                fv = ip.read(st, a[0], string(f))
                ft = ip.ann_type(an, c.mod)
                if isinstance(ft, tuple) and ft[0] == "cls" and ft[1] is not None:
                    fv = ip.alloc("dict", e, content=mk("emptydict"))
                    for f2, an2, d2, c2 in ip.pkg.fields(ft[1]):
                        ip.write(st, fv, string(f2), ip.snap(st, ip.getattr(st, ip.read(st, a[0], string(f)), f2, e)), e, quiet=True)
                    ip.write(st, o, string(f), fv, e, quiet=True)
                else:
                    ip.write(st, o, string(f), ip.snap(st, fv), e, quiet=True)
            return o
        return mk("fn", "asdict", *sn)
    if last in ("astuple", "fields"):
        return mk("fn", last, *sn)
    if last == "deque":
        v = a[0] if a else seq((), "list")
        s = sn[0] if sn else seq((), "list")
        et = None
        ty = ip.type_of(v)
        if isinstance(ty, tuple) and ty[0] == "list":
            et = ty[1]
        if v.op == "obj" and s.op == "seq":
            s = seq(_refs(ip, st, v, s), "list")
        return ip.alloc("deque", e, content=s, etype=et)
    if last == "Path" or last == "PurePath":
        t = sn[0] if len(sn) == 1 else mk("fn", "joinpath", *sn)
        return t
    if last == "join" and "path" in nm:
        return mk("fn", "joinpath", *sn)
    if last in ("exists", "isfile"):
        return mk("truth", mk("fn", "exists", *sn))
    if last in ("fromstring", "loadtxt") and sn and _strlike(ip, sn[0]):
        s = sn[0]
        k = kw.get("dtype")
        sp = mk("split", s)
        idx = mk("idx", len(ip.loops) + 60, ZERO, length(sp))
        x = sel(sp, idx)
        ip.types[x] = "str"
        v = toint(ip, x) if k is not None and _isint_dtype(k) else tofloat(ip, x)
        return ip.alloc("array", e, content=mk("comp", idx, ZERO, length(sp), v, TRUE))
    if last == "savetxt":
        f = a[0]
        kws = dict(zip(("fmt", "delimiter"), sn[2:4]))
        kws.update({k: ip.snap(st, v) for k, v in kw.items()})
        if f.op == "obj" and ip.objs[f].kind == "file":
            ip.event("fwrite", st, e, file=ip.objs[f].content, val=mk("savetxt", sn[1]), lines=False, kw=kws)
        else:
            ip.event("open", st, e, path=sn[0], mode=string("w"), file=mk("file", sn[0]))
            ip.event("fwrite", st, e, file=mk("file", sn[0]), val=mk("savetxt", sn[1]), lines=False, kw=kws)
        return NONE
    if last == "dump" and "yaml" in nm:
        f = kw.get("stream", a[1] if len(a) > 1 else None)
        if f is not None and f.op == "obj" and ip.objs[f].kind == "file":
            ip.event("fwrite", st, e, file=ip.objs[f].content, val=mk("yamldump", sn[0]), lines=False)
            return NONE
        return mk("yamldump", sn[0])
    if last in ("safe_load", "load") and "yaml" in nm:
        c = a[0]
        t = mk("yaml", ip.objs[c].content if c.op == "obj" and ip.objs[c].kind == "file" else sn[0])
        ip.types[t] = ("dict", None)
        return t
    if last in ("dtype", "namedtuple", "TypeVar", "finfo", "iinfo"):
        return mk("fn", last, *sn)
    if last in ("prange",):
        return mk("fn", "range", *sn)
    if last == "fabs":
        return absval(sn[0])
    if last in ("sort", "flip", "roll", "resize", "linspace", "diag", "meshgrid", "argsort", "argmin", "argmax", "argwhere",
                "flatnonzero", "nonzero", "unique", "lstsq", "inv", "pinv", "solve", "matrix_rank", "hstack", "vstack",
                "concatenate", "stack", "column_stack", "convolve", "uniform_filter", "gaussian_filter", "maximum_filter",
                "label", "center_of_mass", "reshape", "ravel", "pad", "cumsum", "tile", "repeat", "outer", "einsum",
                "interp", "histogram", "digitize", "searchsorted", "trapz", "det", "isin", "in1d", "minimize", "randint"):
        if last == "reshape":
            return reshape(ip, a[0], sn[0], sn[1:], e, st)
        r = opq(ip, nm if last in ("lstsq", "convolve") else last, sn, kw, st)
        for k in ("out", "output"):
            if k in kw:
                ip.write(st, kw[k], mk("slice", NONE, NONE, NONE), r, e)
        return r
    if last.endswith("Error") or last.endswith("Exception"):
        return mk("excobj", last, *sn)
    if last in ("njit", "jit", "vectorize"):
        return a[0] if a else mk("ext", nm)
    ip.event("calldyn", st, e, f=mk("ext", nm), args=a)
    return opq(ip, nm, sn, kw, st, nd=False)


def lift_where(c, a, b):
    out = []
    for j, x in enumerate(elems(c)):
        p = elems(a)[j] if a.op == "seq" and j < len(elems(a)) else a
        q = elems(b)[j] if b.op == "seq" and j < len(elems(b)) else b
        out.append(lift_where(x, p, q) if x.op == "seq" else phi(truth(x), p, q))
    return seq(out, "array")


def transpose(m):
    rows = [elems(r) for r in elems(m)]
    return seq([seq([r[j] for r in rows], "array") for j in range(len(rows[0]))], "array")


def _recdtype(t):
    s = show(t)
    if t.op in ("builtin", "ext"):
        return t.args[0].split(".")[-1] not in (
            "float", "float64", "float32", "int", "int32", "int64", "int_", "uint8", "bool", "bool_", "object", "uint32",
            "intp", "complex", "str", "float_", "double", "single", "int16", "uint16", "uint64", "int8")
    if t.op == "str":
        return False
    if t.op in ("fn", "glob") and "dtype" in s:
        return True
    if t.op == "glob":
        return True
    if t.op == "obj" or t.op == "seq":
        return True
    return False
