"""Gated value-graph abstract interpreter over the syntax tree.

Every function is evaluated once on symbolic inputs: branches are merged with
gating functions, loops are summarised (index symbol, recognised reductions,
opaque loop values otherwise), calls of package functions are inlined.  The
result is a value graph in normal form plus a log of events (stores, calls,
reads, raises, ...) each with the condition under which it happens.
No path is enumerated and nothing of the analysed code is executed.
"""

import ast
import sys

from .terms import *
from . import terms as tm
from .model import Func, Cls, Module

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class Event:
    __slots__ = ("kind", "guard", "loops", "node", "func", "stack", "d")

    def __init__(self, kind, guard, loops, node, func, stack, d):
        self.kind, self.guard, self.loops, self.node = kind, guard, loops, node
        self.func, self.stack, self.d = func, stack, d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def where(self):
        return "%s:%d (%s)" % (self.func.mod.path, getattr(self.node, "lineno", 0), self.func.qual)

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.where, {k: v for k, v in self.d.items()})


class Heap:
    __slots__ = ("f", "i", "n")

    def __init__(self):
        self.f = {}   # (base, key str) -> (seq no, value)
        self.i = {}   # base -> tuple of entries (key, value)  (latest last)
        self.n = 0

    def copy(self):
        h = Heap()
        h.f = dict(self.f)
        h.i = dict(self.i)
        h.n = self.n
        return h


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env, heap, pc=TRUE):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return State(dict(self.env), self.heap.copy(), self.pc)


HAVOC = mk("havoc")


class Loop:
    def __init__(self, idx, lo, hi, kind, node, over=None):
        self.idx, self.lo, self.hi, self.kind, self.node, self.over = idx, lo, hi, kind, node, over
        self.rev = False


class ObjInfo:
    def __init__(self, kind, cls=None, content=None, node=None, etype=None):
        self.kind, self.cls, self.content, self.node, self.etype = kind, cls, content, node, etype
        self.deep = False
        self.zero = False
        self.shape = None
        self.view = None


NTUPLES = {}
NPMODS = {"numpy", "np", "math", "scipy"}


# shapes of the results of routines that rules keep uninterpreted: None a number, n a vector, a tuple of these
SHAPES = {"ray_tracing": (3, 3), "skew_midpoint": (None, 3), "point_position": (None, 3), "epi_mm_2D": 3, "move_along_ray": 3}


def mutable_expr(e):
    """expression whose value is a list, dictionary, array or other object with an identity"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.BinOp):
        return mutable_expr(e.left) or mutable_expr(e.right)
    if isinstance(e, ast.Call):
        return ast.unparse(e.func).split(".")[-1] not in (
            "tuple", "frozenset", "int", "float", "str", "bool", "dtype", "float64", "int32", "int64", "Path", "namedtuple", "TypeVar", "field",
            "getLogger", "range", "sqrt", "radians", "uint8", "abs", "round", "len", "finfo", "iinfo", "max", "min")
    return False


_MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "fill", "put", "itemset"}


def _rootname(t):
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def mutated_names(pkg, func, seen=()):
    """local names and parameters whose value the function changes in place"""
    memo = pkg.__dict__.setdefault("_mutnames", {})
    if func in memo:
        return memo[func]
    out = set()
    body = func.node.body if isinstance(func.node.body, list) else []
    for n in (x for b in body for x in ast.walk(b)):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(u, (ast.Subscript, ast.Attribute)):
                    out.add(_rootname(u))
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in _MUTATORS:
                out.add(_rootname(n.func.value))
            for k in n.keywords:
                if k.arg == "out":
                    out.add(_rootname(k.value))
            if isinstance(n.func, (ast.Name, ast.Attribute)) and any(isinstance(a, (ast.Name, ast.Subscript)) for a in n.args):
                r = pkg.resolve(func.mod, ast.unparse(n.func)) if isinstance(n.func, ast.Name) else None
                g = r[1] if r and r[0] == "func" else None
                if g is not None and g is not func and g not in seen and len(seen) < 6:
                    m = mutated_names(pkg, g, seen + (func,))
                    for q, a in zip(g.params, n.args):
                        if q in m:
                            out.add(_rootname(a))
    out.discard(None)
    if not seen:
        memo[func] = out
    return out


def putslice(old, k, v):
    """explicit sequence with a constant slice replaced"""
    if old.op != "seq" or k.op != "slice" or not all(x.op == "none" or is_int_const(x) for x in k.args):
        return None
    f = lambda x: None if x.op == "none" else int(x.args[0])
    rng = range(len(elems(old)))[slice(f(k.args[0]), f(k.args[1]), f(k.args[2]))]
    e = list(elems(old))
    for j, i in enumerate(rng):
        if v.op == "seq" and len(elems(v)) == len(rng):
            e[i] = elems(v)[j]
        elif _scalar(v):
            e[i] = v
        else:
            e[i] = sel(v, num(j))
    return seq(e, old.args[0])


def shaped(t, sh):
    if sh is None:
        return t
    if isinstance(sh, int):
        return seq([sel(t, num(i)) for i in range(sh)], "array")
    return seq([shaped(sel(t, num(i)), x) for i, x in enumerate(sh)], "tuple")


def _afterhavoc(ent):
    """(whether the content was lost, known places written since)"""
    n = max((i for i, e in enumerate(ent) if e[0] is HAVOC), default=-1)
    ks = {}
    for k, v, g in ent[n + 1:]:
        if isinstance(g, tuple) or not isinstance(k, T) or k.op != "num":
            continue
        if g is None:
            ks[k] = 1
    return n >= 0, ks


def _addkey(d, b, k):
    if b not in d:
        d[b] = set()
    if d[b] is None:
        return
    if k is None or not (k.op == "num" and k.args[0].denominator == 1 and k.args[0] >= 0):
        d[b] = None
    else:
        d[b].add(k)


class Interp:
    def __init__(self, pkg, opaque=(), unroll=4, maxdepth=14, rec_reads=False, effects=None, max_events=400000,
                 rec_arith=False, noinline_loops=False, stale=None, lines=None, assume=TRUE, identity=False, olds=False, state=None):
        self.argstate = state or {}
        self.olds = olds
        self.identity = identity
        self.lines = dict(lines or {})
        self.pkg = pkg
        tm.INTNAMES.update(self.intnames())
        tm.NUMNAMES.update(self.pkg._numnames)
        tm.INTARRAYS.update(self.pkg._intarrays)
        self.opaque = set(opaque)
        self.unroll = unroll
        self.maxdepth = maxdepth
        self.events = []
        self.rec_reads = rec_reads
        self.rec_arith = rec_arith
        self.types = {}
        self.objs = {}
        self.filters = {}
        self.added = {}  # grown list -> the value added last
        self.scouting = 0
        self.stack = []
        self.prefix = self.assume = assume
        self.loops = []
        self.rev = False
        self.nobj = 0
        self.unknowns = []
        self.closures = {}
        self.steps = 0
        self.max_steps = 3000000
        self.effects = effects or {}
        self.globcache = {}
        self.funcs_seen = set()
        self.stale = stale
        self.staleloop = {}
        self.nosrc = ("int_par",)
        self.subobj = {}
        self.loopinfo = []

    # ------------------------------------------------------------ utilities
    def event(self, kind, st, node, **d):
        if self.scouting:
            if kind in ("store", "mutate"):
                self.scoutlog.append((kind, d))
            return
        if len(self.events) > 400000:
            raise Undecided("too many events")
        self.events.append(Event(kind, and_(self.prefix, st.pc), tuple(self.loops), node,
                                 self.stack[-1] if self.stack else None, tuple(self.stack), d))

    def unknown(self, why, node=None):
        self.unknowns.append((why, getattr(node, "lineno", 0), self.stack[-1].qual if self.stack else ""))
        return mk("unk", why, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                  self.stack[-1].qual if self.stack else "")

    def alloc(self, kind, node, cls=None, content=None, etype=None):
        ctx = tuple(l.idx.id for l in self.loops)
        self.nobj += 1
        t = mk("obj", kind, cls.name if cls else "", self.nobj)
        self.objs[t] = ObjInfo(kind, cls, content, node, etype)
        return t

    # ------------------------------------------------------------ types
    def ann_type(self, ann, mod):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp):
            a, b = self.ann_type(ann.left, mod), self.ann_type(ann.right, mod)
            return a or b
        if isinstance(ann, ast.Subscript):
            n = ast.unparse(ann.value).split(".")[-1]
            if n in ("List", "list", "Deque", "deque", "Sequence", "Iterable"):
                return ("list", self.ann_type(ann.slice, mod))
            if n == "Optional":
                return self.ann_type(ann.slice, mod)
            if n in ("Tuple", "tuple"):
                el = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                return ("tuple", tuple(self.ann_type(e, mod) for e in el))
            if n in ("Dict", "dict"):
                return ("dict", None)
            return None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            n = ast.unparse(ann)
            last = n.split(".")[-1]
            if last in ("int", "int32", "int64"):
                return "int"
            if last in ("float", "float64"):
                return "float"
            if last in ("str", "Path", "bool"):
                return last
            if last in ("ndarray", "recarray"):
                return "nd"
            if last in ("list", "List", "deque"):
                return ("list", None)
            if isinstance(ann, ast.Name):
                r = self.pkg.resolve(mod, n)
                if r and r[0] == "cls":
                    return ("cls", r[1])
        return None

    def cls_attr_type(self, cls, name):
        a, c = self.pkg.field_ann(cls, name)
        if a is not None:
            return self.ann_type(a, c.mod)
        for c in self.pkg.mro(cls):
            init = c.methods.get("__init__")
            if not init:
                continue
            for n in ast.walk(init.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                    return self.ann_type(n.annotation, c.mod)
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self":
                            v = n.value
                            if isinstance(v, ast.Name) and v.id in init.ann:
                                ty = self.ann_type(init.ann[v.id], c.mod)
                                if ty:
                                    return ty
                            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                                r = self.pkg.resolve(c.mod, v.func.id)
                                if r and r[0] == "cls":
                                    return ("cls", r[1])
                            if isinstance(v, ast.Call):
                                return None
                            if isinstance(v, ast.Name) and v.id in init.params:
                                return self.default_type(init, v.id, c.mod)
        return None

    def default_type(self, init, name, mod):
        """type given by 'if name is None: name = np.array(...)'"""
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
                if isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ("np.array", "np.zeros", "np.ones", "np.empty", "np.eye"):
                    return "nd"
        return None

    def type_of(self, t, depth=0):
        if depth > 8:
            return None
        ty = self.types.get(t)
        if ty is not None:
            return ty
        if t.op == "obj":
            o = self.objs.get(t)
            if o is None:
                return None
            if o.kind == "inst":
                return ("cls", o.cls)
            if o.kind in ("list", "deque"):
                return ("list", o.etype)
            if o.kind == "array":
                return "nd"
            if o.kind == "dict":
                return ("dict", None)
            if o.kind == "file":
                return "file"
        if t.op == "sel":
            b, k = t.args
            bt = self.type_of(b, depth + 1)
            if bt and isinstance(bt, tuple):
                if bt[0] == "cls" and k.op == "str":
                    return self.cls_attr_type(bt[1], k.args[0])
                if bt[0] == "list" and k.op not in ("str", "slice"):
                    return bt[1]
                if bt[0] == "list" and k.op == "slice":
                    return bt
                if bt[0] == "tuple" and is_int_const(k) and int(k.args[0]) < len(bt[1]):
                    return bt[1][int(k.args[0])]
            if k.op == "str" and not isinstance(bt, tuple) and k.args[0] in self.pkg.array_fields():
                return "nd"
            return None
        if t.op == "phi":
            return self.type_of(t.args[1], depth + 1) or self.type_of(t.args[2], depth + 1)
        if t.op in ("cp", "snap", "wit1"):
            return self.type_of(t.args[0], depth + 1)
        if t.op == "rec":
            c = self.types.get(("cls", t.args[0]))
            return c
        if t.op == "str" or t.op == "fmt":
            return "str"
        return None

    def set_type(self, t, ty):
        if ty is not None and t.op not in ("num", "str", "bool", "none", "seq", "poly"):
            if t not in self.types:
                self.types[t] = ty
            if ty == "int" and t.op in ("sym", "sel", "call", "mu"):
                INTS.add(t)

    # ------------------------------------------------------------ heap
    def read(self, st, base, key, node=None, quiet=False):
        """value stored at base[key] / base.key"""
        h = st.heap
        if base.op == "phi":
            return phi(base.args[0], self.read(st, base.args[1], key, node, True),
                       self.read(st, base.args[2], key, node, True))
        if key.op == "str":
            k = key.args[0]
            e = h.f.get((base, k))
            best = None
            if base.op == "sel" and base.args[1].op != "str":
                # other elements of the same container may be the same object
                fam = [(sq, b, v) for (b, kk), (sq, v) in h.f.items()
                       if kk == k and b is not base and b.op == "sel" and b.args[0] is base.args[0]]
                if fam:
                    res = None
                    items = sorted(fam + ([(e[0], base, e[1])] if e else []), key=lambda x: x[0])
                    # start below the last definite one
                    res = self._init_field(st, base, key)
                    for sq, b, v in items:
                        c = TRUE if b is base else keyeq(b.args[1], base.args[1])
                        if c is TRUE:
                            res = v
                        elif c is FALSE:
                            continue
                        else:
                            res = phi(c, v, res)
                    return res
            if e is not None:
                return e[1]
            return self._init_field(st, base, key)
        # element access
        ent = h.i.get(base)
        init = self._init_elem(st, base, key)
        if not ent:
            return init
        # walk entries from first to last
        start = 0
        for n in range(len(ent) - 1, -1, -1):
            kk = ent[n][0]
            if kk is HAVOC:
                start = n
                break
            if ent[n][2] is None and keyeq(kk, key) is TRUE:
                start = n
                break
        if len(ent) - start > 40:
            return mk("sel", mk("many", base), key)
        res = init
        for kk, v, g in ent[start:]:
            if kk is HAVOC:
                if v is not None and v.op == "appended" and is_int_const(key) and key.args[0] == -1:
                    res = self.added.get(v, v.args[1])  # the last one, just added
                else:
                    res = self._selty(v, key) if v is not None else self.unknown("havoc")
                continue
            if isinstance(g, tuple):
                # mapped store: (idx, lo, hi, guard)
                idx, lo, hi, gd = g
                # kk == idx + off
                off = sub(kk, idx)
                at = sub(key, off)
                v2 = subst(v, {idx: at})
                g2 = and_(le(lo, at), lt(at, hi), subst(gd, {idx: at}))
                g2 = self._simp(g2, st)
                res = phi(g2, v2, res)
                continue
            if kk.op == "mkey" and key.op not in ("mkey", "slice", "str") and g is None:
                res = self._rows(kk, v, key, res)
                continue
            c = keyeq(kk, key)
            if key.op == "slice" and kk.op != "slice":
                res = mk("snap", res, ((kk, v),))
                continue
            if c is TRUE:
                res = v if g is None else phi(g, v, res)
            elif c is FALSE:
                continue
            else:
                if c.op == "in":
                    v = self._sliceval(kk, v, key)
                    if v is None:
                        continue
                    c = self._inslice(kk, key)
                c = self._simp(c, st)
                if g is not None:
                    c = and_(c, g)
                res = phi(c, v, res)
        return res

    def _rows(self, kk, v, key, res):
        """row of a table some columns of which were stored"""
        f = kk.args[0]
        rest = kk.args[1:]
        if f.op != "slice" or any(x.op in ("ellipsis", "none") for x in rest) or v.op == "obj":
            return mk("sel", mk("many2", kk, v), key)
        val = v if _scalar(v) else sel(v, key if f.args[0].op == "none" else sub(key, f.args[0]))
        if _scalar(res) and res.op == "num":
            res = mk("fill", res, NONE)
        k = rest[0] if len(rest) == 1 else mk("mkey", *rest)
        if k.op == "slice" and all(x.op == "none" for x in k.args) and val.op == "seq":
            new = val
        elif res.op == "seq" and is_int_const(k) and -len(elems(res)) <= int(k.args[0]) < len(elems(res)):
            e = list(elems(res))
            e[int(k.args[0])] = val
            new = seq(e, res.args[0])
        else:
            new = mk("snap", res, ((k, val),))
        c = TRUE if all(x.op == "none" for x in f.args) else self._inslice(f, key)
        return phi(c, new, res)

    def _sliceval(self, kk, v, key):
        if kk.op == "slice" and key.op != "slice":
            lo = kk.args[0]
            off = key if lo.op == "none" else sub(key, lo)
            if _scalar(v):
                return v
            return sel(v, off)
        return mk("sel", v, key)

    def _inslice(self, kk, key):
        if kk.op == "slice" and key.op != "slice":
            lo, hi = kk.args[0], kk.args[1]
            c = TRUE
            if lo.op == "num" and lo.args[0] > 0 or lo.op not in ("none", "num"):
                c = and_(c, le(lo, key))
            if hi.op == "none":
                return c
            if hi.op == "num" and hi.args[0] < 0:
                return mk("in", kk, key)
            return and_(c, lt(key, hi))
        return mk("in", kk, key)

    def _simp(self, c, st):
        g = and_(self.prefix, st.pc)
        if c in (TRUE, FALSE):
            return c
        if implies(g, c, 3):
            return TRUE
        if implies(g, not_(c), 3):
            return FALSE
        return c

    def _selty(self, base, key):
        t = sel(base, key)
        ty = self.type_of(t)
        if ty == "int":
            INTS.add(t)
        return t

    def _init_field(self, st, base, key):
        if key.args[0] == "#stale":
            o = self.objs.get(base)
            return self._carried(st, o.content) if o is not None and o.content is not None else FALSE
        o = self.objs.get(base)
        if o is not None:
            if o.kind == "inst" and o.content is None:
                r = self._class_attr(st, o.cls, key.args[0])
                if r is not None:
                    return r
            if o.content is not None:
                c = o.content
                if c.op == "obj":
                    return self.read(st, c, key)
                return self._deep(st, base, key, o, self._selty(c, key))
            return mk("sel", base, key)
        if base.op == "sel" and base.args[0] in self.objs:
            oo = self.objs[base.args[0]]
            if oo.kind == "recarr" and oo.zero:
                return ZERO
            if oo.content is not None and base.args[1].op not in ("str", "slice"):
                v = sel(oo.content, base.args[1])
                if v.op in ("rec", "snap"):
                    return self._selty(v, key)
        if base.op == "cls":
            c = self.types.get(base)
            if c:
                r = self._class_attr(st, c[1], key.args[0])
                if r is not None:
                    return r
        return self._selty(base, key)

    def _carried(self, st, c):
        """stale flag of a copied value"""
        if c.op == "phi":
            return phi(c.args[0], self._carried(st, c.args[1]), self._carried(st, c.args[2]))
        if c.op == "obj" or (c, "#stale") in st.heap.f:
            return self.read(st, c, string("#stale"), None, True)
        if c.op == "snap":
            for k, v in c.args[1]:
                if k == "#stale" or isinstance(k, T) and k.op == "str" and k.args[0] == "#stale":
                    return v
            return self._carried(st, c.args[0])
        if c.op == "rec":
            for kv in c.args[1:]:
                for k, v in (kv if isinstance(kv, tuple) and kv and isinstance(kv[0], tuple) else ()):
                    if k == "#stale":
                        return v
        return FALSE

    def _deep(self, st, base, key, o, v):
        """element of a deep copy: a reference value is itself copied"""
        if o.kind in ("array", "recarr") and key.op == "str" and key.args[0] in self.subarrays() and v.op != "obj":
            # a field that is itself an array lies in the memory of the record
            n = self.subobj.get((base, key))
            if n is None:
                n = self.subobj[(base, key)] = self.alloc("array", None, content=v)
            st.heap.n += 1
            st.heap.f[(base, key.args[0])] = (st.heap.n, n)
            return n
        if not o.deep or v.op in ("obj", "num", "str", "bool", "none"):
            return v
        ty = self.type_of(v)
        if ty is None and v.op not in ("seq", "rec", "snap"):
            return v
        if ty in ("int", "float", "str", "bool", "Path"):
            return v
        if isinstance(ty, tuple) and ty[0] == "cls":
            n = self.alloc("inst", None, cls=ty[1], content=v)
        elif isinstance(ty, tuple) and ty[0] == "list":
            n = self.alloc("list", None, content=v, etype=ty[1])
        else:
            n = self.alloc("array", None, content=v)
        self.objs[n].deep = True
        st.heap.n += 1
        if key.op == "str":
            st.heap.f[(base, key.args[0])] = (st.heap.n, n)
        return n

    def intnames(self):
        """names of scalar record fields declared as integers (and nowhere as anything else)"""
        r = getattr(self.pkg, "_intnames", None)
        if r is None:
            yes, no = set(), set()
            sc, arr = set(), set()
            for m in self.pkg.mods.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Tuple) and len(x.elts) in (2, 3) and isinstance(x.elts[0], ast.Constant) and isinstance(x.elts[0].value, str):
                        (sc if len(x.elts) == 2 and isinstance(x.elts[1], (ast.Attribute, ast.Name)) else arr).add(x.elts[0].value)
                    if isinstance(x, ast.Tuple) and len(x.elts) == 2 and isinstance(x.elts[0], ast.Constant) and isinstance(x.elts[0].value, str):
                        (yes if ast.unparse(x.elts[1]) in ("np.int32", "np.int64", "int") else no).add(x.elts[0].value)
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and ast.unparse(x.annotation) != "int":
                        no.add(x.target.id)
            ya, na, yn, nn = set(), set(), set(), set()
            for m in self.pkg.mods.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Tuple) and len(x.elts) in (2, 3) and isinstance(x.elts[0], ast.Constant) and isinstance(x.elts[0].value, str) and isinstance(x.elts[1], (ast.Attribute, ast.Name)):
                        ty = ast.unparse(x.elts[1])
                        if len(x.elts) == 3 and isinstance(x.elts[2], ast.Tuple):
                            (ya if ty in ("np.int32", "np.int64", "int") else na).add(x.elts[0].value)
                            nn.add(x.elts[0].value)
                        else:
                            na.add(x.elts[0].value)
                            (yn if ty in ("np.int32", "np.int64", "int", "np.float64", "float") else nn).add(x.elts[0].value)
                    elif isinstance(x, ast.ClassDef):
                        for y in x.body:
                            if isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name):
                                (yn if ast.unparse(y.annotation) in ("int", "float", "bool") else nn).add(y.target.id)
                                na.add(y.target.id)
            self.pkg._numnames = yn - nn
            self.pkg._intarrays = ya - na
            r = self.pkg._intnames = yes - no
            self.pkg._columns = sc - arr
        return r

    def uniquemethods(self):
        """methods whose name belongs to one class of the package only"""
        r = getattr(self.pkg, "_uniquemethods", None)
        if r is None:
            r = {}
            for m in self.pkg.mods.values():
                for c in m.classes.values():
                    for n, f in c.methods.items():
                        r[n] = None if n in r or hasattr(__import__("numpy").ndarray, n) else f
            self.pkg._uniquemethods = r
        return r

    def subarrays(self):
        """names of record fields that are arrays, from the dtypes of the package"""
        r = getattr(self.pkg, "_subarrays", None)
        if r is None:
            r = set()
            for m in self.pkg.mods.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Tuple) and len(x.elts) == 3 and isinstance(x.elts[0], ast.Constant) \
                            and isinstance(x.elts[0].value, str) and isinstance(x.elts[2], ast.Tuple):
                        r.add(x.elts[0].value)
            self.pkg._subarrays = r
        return r

    def _kept(self, st, b, keys):
        """places of an object that a loop leaves alone, when all those it writes are known"""
        if keys is None or b.op != "obj" or b not in self.objs:
            return ()
        ent = st.heap.i.get(b, ())
        out, seen = [], set()
        c = self.objs[b].content
        if c is not None and c.op == "seq" and self.objs[b].kind == "array" and isinstance(c.args[1], tuple) and len(c.args[1]) <= 8 \
                and all(isinstance(x, T) and x.op == "num" for x in keys) and all(isinstance(e[0], T) and e[0].op == "num" and e[2] is None for e in ent):
            return tuple((num(j), self.read(st, b, num(j), None, True), None) for j in range(len(c.args[1])) if num(j) not in keys)
        for k, v, g in ent:
            if not isinstance(k, T):
                out, seen = [], set()
                continue
            if k.op == "num" and k not in seen and k not in keys:
                seen.add(k)
                out.append((k, self.read(st, b, k, None, True), None))
        return tuple(out)

    def _class_attr(self, st, cls, name):
        for c in self.pkg.mro(cls):
            for f, a, d in c.fields:
                if f == name and d is not None and not isinstance(d, ast.Call):
                    return self.const_eval(d, c.mod)
            if name in c.attrs:
                return self.const_eval(c.attrs[name], c.mod)
        return None

    def _init_elem(self, st, base, key):
        o = self.objs.get(base)
        if o is not None:
            if o.content is not None:
                c = o.content
                if c.op == "obj":
                    return self.read(st, c, key)
                if c.op == "comp" and c.args[3].op == "rec" and c.args[4] is TRUE and key.op != "slice":
                    r = mk("sel", base, key)
                    if o.etype is not None:
                        self.types.setdefault(r, o.etype)
                    return r
                if c.op == "seq" and key.op == "slice":
                    return self._slice(c, key)
                return self._selty(c, key)
            return mk("sel", base, key)
        if key.op == "slice":
            return self._slice(base, key)
        return self._selty(base, key)

    def _slice(self, t, key):
        lo, hi, stp = key.args
        if t.op == "seq" and all(x.op == "none" or is_int_const(x) for x in key.args):
            f = lambda x: None if x.op == "none" else int(x.args[0])
            return seq(elems(t)[slice(f(lo), f(hi), f(stp))], t.args[0])
        if lo.op == "none" and hi.op == "none" and stp.op == "none":
            return t
        if lo is ZERO:
            key = mk("slice", NONE, hi, stp)
        if t.op == "str" and all(x.op == "none" or is_int_const(x) for x in key.args):
            f = lambda x: None if x.op == "none" else int(x.args[0])
            return string(t.args[0][slice(f(lo), f(hi), f(stp))])
        return mk("sel", t, key)

    def write(self, st, base, key, value, node, guard=None, quiet=False):
        if base.op == "phi":
            c = base.args[0]
            for b, cc in ((base.args[1], c), (base.args[2], not_(c))):
                old = self.read(st, b, key, node, True)
                self.write(st, b, key, phi(cc, value, old), node, guard, quiet)
            return
        if not quiet:
            self.event("store", st, node, base=base, key=key, val=value,
                       old=self.read(st, base, key, node, True) if self.olds and not self.scouting else None)
        h = st.heap
        h.n += 1
        if self.stale is not None and not quiet:
            self._stale(st, base, key, value, node)
        if key.op == "str":
            h.f[(base, key.args[0])] = (h.n, value)
            return
        ent = h.i.get(base, ())
        if len(ent) > 300:
            h.i[base] = ((HAVOC, mk("many2", base, h.n), None),)
            return
        ent = tuple(e for e in ent if not (e[0] is key and e[2] is None))
        h.i[base] = ent + ((key, value, guard),)

    def _stale(self, st, base, key, value, node):
        """typestate of derived data: source fields changed since the derived field was computed"""
        src, dst = self.stale
        flag = string("#stale")
        x = None
        if base.op == "sel" and base.args[1].op == "str" and base.args[1].args[0] in self.nosrc:
            return
        if key.op == "str" and key.args[0] in src:
            x, new = base, TRUE
            if value is self.read(st, base, key, node, True):
                return
        elif key.op == "mkey" or key.op == "dynkey":
            if key.op == "dynkey":
                x = base
                new = phi(or_(*[eq(key.args[0], string(f)) for f in src]), TRUE, self.read(st, base, flag, node, True))
        elif key.op == "str" and key.args[0] == dst:
            x, new = base, FALSE
        elif key.op != "str":
            b = base
            while b.op == "sel" and b.args[1].op != "str" or b.op == "row":
                b = b.args[0]
            if b.op == "sel" and b.args[1].args[0] == dst:
                x, new = b.args[0], FALSE
            elif b.op == "obj":
                for (o, k), (sq, v) in st.heap.f.items():
                    if k == dst and v is b:
                        x, new = o, FALSE
        if x is None:
            return
        if new is FALSE:
            cur = [self.snap(st, self.read(st, x, string(f), node, True)) for f in src]
            val_ = self.snap(st, value)
            trig = [t.args[1] for t in walk(val_) if t.op == "fn" and t.args[0] in ("sin", "cos")]
            if not trig or not all(t in cur or neg(t) in cur for t in trig):
                return
        if self.scouting:
            self.scoutlog.append(("store", {"base": x, "key": flag, "val": new}))
        st.heap.n += 1
        st.heap.f[(x, "#stale")] = (st.heap.n, new)

    # value of an object as an immutable term
    def snap(self, st, t, depth=0):
        if t.op == "phi" and (t.args[1].op == "obj" or t.args[2].op == "obj"):
            return phi(t.args[0], self.snap(st, t.args[1], depth), self.snap(st, t.args[2], depth))
        if t.op == "seq":
            e = [self.snap(st, x, depth + 1) for x in elems(t)]
            return seq(e, t.args[0]) if any(a is not b for a, b in zip(e, elems(t))) else t
        if t.op != "obj":
            ent = st.heap.i.get(t)
            flds = []
            if t.op in ("sym", "sel", "call", "unk") and st.heap.f:
                first = {}
                for k, v in st.heap.f.items():
                    if k[0] is t:
                        first[k[1]] = v[1]
                for (bb, kk) in st.heap.f:
                    p = bb
                    while p.op == "sel" and p.args[1].op == "str":
                        if p.args[0] is t:
                            if p.args[1].args[0] not in first:
                                first[p.args[1].args[0]] = p
                            break
                        p = p.args[0]
                for bb in st.heap.i:
                    p = bb
                    while p.op == "sel" and p.args[1].op == "str":
                        if p.args[0] is t:
                            if p.args[1].args[0] not in first:
                                first[p.args[1].args[0]] = p
                            break
                        p = p.args[0]
                flds = list(first.items())
            if not ent and not flds:
                return t
            if depth > 5:
                return t
            over = []
            for k, v in sorted(flds, key=lambda p: p[0]):
                nv = self.snap(st, v, depth + 1)
                if nv is not mk("sel", t, string(k)):
                    over.append((string(k), nv))
            for k, v, g in ent or ():
                if k is HAVOC:
                    over = [(HAVOC, v)]
                    t = v
                    over = []
                    continue
                if isinstance(g, tuple):
                    over.append((k, mk("mapv", g[0], g[1], g[2], g[3], self.snap(st, v, depth + 1))))
                else:
                    nv = self.snap(st, v, depth + 1)
                    if isinstance(g, T) and g is not TRUE:
                        nv = phi(g, nv, mk("sel", mk("snap", t, tuple(over)) if over else t, k))
                    over.append((k, nv))
            return mk("snap", t, tuple(over)) if over else t
        o = self.objs[t]
        if depth > 5:
            return t
        if o.kind == "inst":
            fl = []
            seen = set()
            for (b, k), (n, v) in st.heap.f.items():
                if b is t:
                    fl.append((k, self.snap(st, v, depth + 1)))
            if o.content is not None:
                c = o.content if o.content.op != "obj" else self.snap(st, o.content, depth + 1)
                r = mk("snap", c, tuple((string(k), v) for k, v in sorted(fl, key=lambda p: p[0]))) if fl else c
                return r
            r = mk("rec", o.cls.name if o.cls is not None else "tuple", tuple(sorted(fl, key=lambda p: p[0])))
            if o.cls is not None:
                self.types.setdefault(("cls", o.cls.name), ("cls", o.cls))
                self.types.setdefault(r, ("cls", o.cls))
            return r
        if o.kind == "recarr":
            return t
        if o.kind in ("list", "array", "deque", "dict"):
            base = o.content if o.content is not None else seq((), "list")
            if base.op == "obj":
                base = self.snap(st, base, depth + 1)
            elif base.op == "seq":
                base = seq([self.snap(st, x, depth + 1) for x in elems(base)], base.args[0])
            over = []
            for k, v, g in st.heap.i.get(t, ()):
                if k is HAVOC:
                    base, over = v, []
                    continue
                v2 = self.snap(st, v, depth + 1)
                if g is None and not over and base.op == "seq" and is_int_const(k) and -len(elems(base)) <= int(k.args[0]) < len(elems(base)):
                    e = list(elems(base))
                    e[int(k.args[0])] = v2
                    base = seq(e, base.args[0])
                    continue
                if g is None and not over and base.op == "seq" and k.op == "slice" and all(x.op == "none" or is_int_const(x) for x in k.args):
                    f = lambda x: None if x.op == "none" else int(x.args[0])
                    rng = range(len(elems(base)))[slice(f(k.args[0]), f(k.args[1]), f(k.args[2]))]
                    e = list(elems(base))
                    ok = True
                    if v2.op == "seq" and len(elems(v2)) == len(rng):
                        for i, x in zip(rng, elems(v2)):
                            e[i] = x
                    elif _scalar(v2):
                        for i in rng:
                            e[i] = v2
                    else:
                        for j, i in enumerate(rng):
                            e[i] = sel(v2, num(j))
                    base = seq(e, base.args[0])
                    continue
                if isinstance(g, tuple):
                    v2 = mk("mapv", g[0], g[1], g[2], g[3], v2)
                over.append((k, v2))
            for (b, k), (n, v) in st.heap.f.items():
                if b is t and (not k.startswith("#") or k == "#stale" and v is not FALSE):
                    over.append((string(k), self.snap(st, v, depth + 1)))
            if over and base.op == "fill" and base.args[1].op != "seq" and is_int_const(base.args[1]) \
                    and int(base.args[1].args[0]) <= 12 and all(is_int_const(k) for k, _ in over):
                e = [base.args[0]] * int(base.args[1].args[0])
                for k, v in over:
                    i = int(k.args[0])
                    if -len(e) <= i < len(e):
                        e[i] = v
                return seq(e, "array")
            if not over and base.op == "fill" and base.args[1].op != "seq" and is_int_const(base.args[1]) \
                    and int(base.args[1].args[0]) <= 12:
                return seq([base.args[0]] * int(base.args[1].args[0]), "array")
            return mk("snap", base, tuple(over)) if over else base
        return t

    # ------------------------------------------------------------ constants
    def const_eval(self, expr, mod):
        k = ("const", mod.name, ast.dump(expr))
        if k in self.globcache:
            return self.globcache[k]
        self.globcache[k] = mk("glob", mod.name, ast.unparse(expr)[:80])
        try:
            r = self._const(expr, mod) if not (self.identity and mutable_expr(expr)) else None
        except Undecided:
            r = None
        if r is None:
            r = mk("glob", mod.name, ast.unparse(expr)[:80])
            self._globrec(r, expr, mod)
            if isinstance(expr, ast.Call) and ast.unparse(expr.func).split(".")[-1] == "namedtuple" and len(expr.args) == 2:
                x = expr.args[1]
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    NTUPLES[r] = x.value.replace(",", " ").split()
                elif isinstance(x, (ast.List, ast.Tuple)) and all(isinstance(y, ast.Constant) for y in x.elts):
                    NTUPLES[r] = [y.value for y in x.elts]
        self.globcache[k] = r
        return r

    def _globrec(self, t, e, mod):
        """fields of a module constant np.array((...), dtype=<record type>)"""
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("view", "copy"):
            e = e.func.value
        if not (isinstance(e, ast.Call) and ast.unparse(e.func) in ("np.array", "numpy.array", "np.rec.array") and e.args
                and isinstance(e.args[0], ast.Tuple)):
            return
        names = self.dtype_names(next((k.value for k in e.keywords if k.arg == "dtype"), None), mod)
        vals = [self._zeros(x) or self._const(x, mod) for x in e.args[0].elts]
        if names is None or len(names) != len(vals):
            return
        GLOBREC[t] = {n: v for n, v in zip(names, vals) if v is not None}

    def _zeros(self, e):
        if isinstance(e, ast.Call) and ast.unparse(e.func) in ("np.zeros", "np.eye", "np.ones") and len(e.args) == 1 \
                and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, int) and not e.keywords:
            k, n = ast.unparse(e.func)[3:], e.args[0].value
            if n <= 16:
                if k == "eye":
                    return seq([seq([num(int(i == j)) for j in range(n)], "array") for i in range(n)], "array")
                return seq([num(int(k == "ones"))] * n, "array")
        return None

    def dtype_names(self, e, mod):
        if isinstance(e, ast.Name):
            r = self.pkg.resolve(mod, e.id)
            if not (r and r[0] == "const"):
                return None
            e, mod = r[2], r[1]
        if isinstance(e, ast.Call) and ast.unparse(e.func) in ("np.dtype", "numpy.dtype") and e.args:
            e = e.args[0]
        if isinstance(e, (ast.List, ast.Tuple)) and all(
                isinstance(x, ast.Tuple) and x.elts and isinstance(x.elts[0], ast.Constant) for x in e.elts):
            return [x.elts[0].value for x in e.elts]
        return None

    def _const(self, e, mod):
        if isinstance(e, ast.Constant):
            return self._lit(e.value)
        if isinstance(e, ast.UnaryOp):
            v = self._const(e.operand, mod)
            if v is None:
                return None
            if isinstance(e.op, ast.USub):
                return neg(v)
            if isinstance(e.op, ast.Not):
                return not_(truth(v))
            if isinstance(e.op, ast.UAdd):
                return v
        if isinstance(e, ast.BinOp):
            a, b = self._const(e.left, mod), self._const(e.right, mod)
            if a is None or b is None:
                return None
            return self.binop(e.op, a, b)
        if isinstance(e, ast.Name):
            r = self.pkg.resolve(mod, e.id)
            if r and r[0] == "const":
                return self.const_eval(r[2], r[1])
            return None
        if isinstance(e, (ast.Tuple, ast.List)):
            v = [self._const(x, mod) for x in e.elts]
            if any(x is None for x in v):
                return None
            return seq(v, "tuple" if isinstance(e, ast.Tuple) else "list")
        if isinstance(e, ast.Call) and ast.unparse(e.func) in ("float", "int") and len(e.args) == 1:
            a = e.args[0]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                try:
                    return num(float(a.value))
                except ValueError:
                    return None
            return self._const(a, mod)
        if isinstance(e, ast.Attribute) and ast.unparse(e) in ("np.inf", "numpy.inf", "math.inf"):
            return mk("inf", 1)
        return None

    def _lit(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return mk("ellipsis")
        return mk("lit", repr(v))

    # ------------------------------------------------------------ running a function
    def start(self, func, args=None, types=None, st=None):
        """analyse func on symbolic parameters (or given terms); returns (value, state)"""
        st = st or State({}, Heap())
        b = {}
        for p in func.params + func.kwonly:
            if args and p in args:
                b[p] = args[p]
                if args[p].op == "sym":
                    ty = (types or {}).get(p)
                    if ty is None and p in func.ann:
                        ty = self.ann_type(func.ann[p], func.mod)
                    if ty is None and p == "self" and func.cls:
                        ty = ("cls", func.cls)
                    self.set_type(args[p], ty)
                continue
            if func.classm and func.cls and func.params and p == func.params[0]:
                b[p] = self.wrap(("cls", func.cls))
                continue
            s = mk("sym", p)
            ty = (types or {}).get(p)
            if ty is None and p in func.ann:
                ty = self.ann_type(func.ann[p], func.mod)
            if ty is None and p in ("self", "cls") and func.cls:
                ty = ("cls", func.cls)
            self.set_type(s, ty)
            b[p] = s
        if func.vararg:
            b[func.vararg] = mk("sym", "*" + func.vararg)
        if func.kwarg:
            b[func.kwarg] = mk("sym", "**" + func.kwarg)
        return self.run(func, b, st, func.node)

    def run(self, func, binding, st, node, closure=None):
        if len(self.stack) > self.maxdepth or self.stack.count(func) > 0:
            raise Undecided("recursion")
        self.funcs_seen.add(func)
        env = dict(closure or {})
        env.update(binding)
        sub_ = State(env, st.heap.copy(), TRUE)
        saved = self.prefix
        self.prefix = and_(self.prefix, st.pc)
        self.stack.append(func)
        fr = Frame()
        try:
            body = func.node.body
            if isinstance(func.node, ast.Lambda):
                v = self.expr(body, sub_)
                fr.rets.append((sub_.pc, v, sub_.heap))
                sub_.pc = FALSE
            else:
                self.block(body, sub_, fr)
        finally:
            self.stack.pop()
            self.prefix = saved
        if sub_.pc is not FALSE:
            fr.rets.append((sub_.pc, NONE, sub_.heap))
        if not fr.rets:
            st.pc = FALSE
            return NONE, st
        # merge
        pc, v, h = fr.rets[-1]
        for p2, v2, h2 in reversed(fr.rets[:-1]):
            hm = self.merge_heap(p2, h2, h)
            v = self.phi_val(p2, v2, v)
            h = hm
            pc = or_(p2, pc)
        st.heap = h
        st.pc = and_(st.pc, pc)
        return v, st

    def phi_val(self, c, a, b):
        return phi(c, a, b)

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        if c is TRUE:
            return h1
        if c is FALSE:
            return h2
        h = Heap()
        h.n = max(h1.n, h2.n) + 1
        s1, s2 = State({}, h1), State({}, h2)
        f = h.f
        for k in list(h1.f) + [k for k in h2.f if k not in h1.f]:
            e1, e2 = h1.f.get(k), h2.f.get(k)
            if e1 is not None and e2 is not None and e1[1] is e2[1]:
                f[k] = (max(e1[0], e2[0]), e1[1])
                continue
            if k[1] == "#pos" and (e1 is None or e2 is None) and (e1 or e2)[1].op != "mu":
                # a file opened on one side only
                f[k] = e1 or e2
                continue
            v1 = e1[1] if e1 else self.read(s1, k[0], string(k[1]), None, True)
            v2 = e2[1] if e2 else self.read(s2, k[0], string(k[1]), None, True)
            f[k] = (max(e1[0] if e1 else 0, e2[0] if e2 else 0), phi(c, v1, v2))
        for b in list(h1.i) + [b for b in h2.i if b not in h1.i]:
            l1, l2 = h1.i.get(b, ()), h2.i.get(b, ())
            if l1 == l2:
                h.i[b] = l1
                continue
            n = 0
            while n < len(l1) and n < len(l2) and l1[n] == l2[n]:
                n += 1
            r1, r2 = l1[n:], l2[n:]
            pre = l1[:n]
            if any(e[0] is HAVOC for e in r1 + r2):
                hv1 = [e for e in r1 if e[0] is HAVOC]
                hv2 = [e for e in r2 if e[0] is HAVOC]
                if b.op == "obj" and self.objs[b].kind == "array":
                    v1, v2 = self.snap(s1, b), self.snap(s2, b)
                    if v1.op == "seq" and v2.op == "seq" and len(elems(v1)) == len(elems(v2)) and \
                            not any(x.op in ("seq", "obj") for x in elems(v1) + elems(v2)):
                        h.i[b] = pre + ((HAVOC, seq([phi(c, x, y) for x, y in zip(elems(v1), elems(v2))], "array"), None),)
                        continue
                if not hv2 and not r2 or not hv1 and not r1:
                    # one side untouched
                    (rr, cc) = (r1, c) if r1 else (r2, not_(c))
                    hv = [e for e in rr if e[0] is HAVOC][-1]
                    oldsnap = mk("arr0", b, n)
                    base = mk("hphi", cc, hv[1], b)
                    h.i[b] = pre + ((HAVOC, base, None),)
                else:
                    h.i[b] = pre + ((HAVOC, mk("hphi2", c, b, h.n), None),)
                # places known on both sides
                a1, a2 = _afterhavoc(l1), _afterhavoc(l2)
                add_ = []
                for k in dict.fromkeys(list(a1[1]) + list(a2[1])):
                    if (k in a1[1] or not a1[0]) and (k in a2[1] or not a2[0]):
                        add_.append((k, phi(c, self.read(s1, b, k, None, True), self.read(s2, b, k, None, True)), None))
                h.i[b] += tuple(add_)
                continue
            new = []
            k1 = {e[0]: e for e in r1 if e[2] is None}
            k2 = {e[0]: e for e in r2 if e[2] is None}
            if len(k1) == len(r1) and len(k2) == len(r2) and all(is_const(k) for k in list(k1) + list(k2)):
                for k in list(k1) + [k for k in k2 if k not in k1]:
                    v1 = k1[k][1] if k in k1 else self.read(s1, b, k, None, True)
                    v2 = k2[k][1] if k in k2 else self.read(s2, b, k, None, True)
                    new.append((k, phi(c, v1, v2), None))
                h.i[b] = pre + tuple(new)
                continue
            if len(r1) == len(r2) and all(x[0] is y[0] and not isinstance(x[2], tuple) and not isinstance(y[2], tuple)
                                          and x[2] is y[2] for x, y in zip(r1, r2)):
                h.i[b] = pre + tuple((x[0], phi(c, x[1], y[1]), x[2]) for x, y in zip(r1, r2))
                continue
            for r, cc in ((r1, c), (r2, not_(c))):
                for k, v, g in r:
                    if isinstance(g, tuple):
                        new.append((k, v, (g[0], g[1], g[2], and_(cc, g[3]))))
                    else:
                        new.append((k, v, cc if g is None else and_(cc, g)))
            h.i[b] = pre + tuple(new)
        return h

    def merge(self, c, s1, s2):
        """s1 under c, s2 under not c (pcs already include them)"""
        if s1.pc is FALSE:
            return s2
        if s2.pc is FALSE:
            return s1
        env = {}
        for k in s1.env:
            if k in s2.env:
                a, b = s1.env[k], s2.env[k]
                env[k] = a if a is b else phi(c, a, b)
            else:
                env[k] = s1.env[k]
        for k in s2.env:
            if k not in s1.env:
                env[k] = s2.env[k]
        return State(env, self.merge_heap(c, s1.heap, s2.heap), or_(s1.pc, s2.pc))

    # ------------------------------------------------------------ statements
    def block(self, body, st, fr):
        for n in body:
            if st.pc is FALSE:
                return
            self.stmt(n, st, fr)

    def adopt(self, st, new):
        st.env, st.heap, st.pc = new.env, new.heap, new.pc

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("analysis budget exceeded")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.unknown("statement " + type(n).__name__, n)
            return
        m(n, st, fr)

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.expr(n.value, st)

    def s_Pass(self, n, st, fr):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st, fr):
        for a in n.names:
            st.env[(a.asname or a.name.split(".")[0])] = mk("ext", a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, n, st, fr):
        mod = n.module or ""
        for a in n.names:
            if n.level or mod.startswith("openptv_python"):
                mm = mod[len("openptv_python"):].lstrip(".") if mod.startswith("openptv_python") else mod
                tgt = self.pkg.mods.get(mm or "__init__")
                r = self.pkg.resolve(tgt, a.name) if tgt else None
                if r is None and a.name in self.pkg.mods:
                    r = ("mod", self.pkg.mods[a.name])
                if r:
                    st.env[a.asname or a.name] = self.wrap(r)
            else:
                st.env[a.asname or a.name] = mk("ext", mod + "." + a.name)

    def s_FunctionDef(self, n, st, fr):
        f = Func(self.stack[-1].mod, n, None, self.stack[-1])
        t = mk("func", f.name, id(n), len(self.stack))
        self.closures[t] = (f, st.env)
        st.env[n.name] = t

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)

    def s_Assert(self, n, st, fr):
        c = truth(self.expr(n.test, st))
        self.event_raise(st, not_(c), n, "AssertionError")
        st.pc = and_(st.pc, c)

    def event_raise(self, st, c, n, what, term=None):
        pc = st.pc
        st.pc = and_(pc, c)
        if st.pc is not FALSE:
            self.event("raise", st, n, exc=what, term=term)
        st.pc = pc

    def s_Raise(self, n, st, fr):
        what = ""
        v = None
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            what = ast.unparse(e)
            v = self.expr(n.exc, st)
        self.event("raise", st, n, exc=what, term=v)
        if fr.tries:
            fr.tries[-1].append((st.pc, st.copy()))
        st.pc = FALSE

    def s_Return(self, n, st, fr):
        v = self.expr(n.value, st) if n.value is not None else NONE
        self.event("return", st, n, val=v, depth=len(self.stack))
        fr.rets.append((st.pc, v, st.heap.copy()))
        st.pc = FALSE

    def s_Break(self, n, st, fr):
        self.event("break", st, n)
        fr.brk[-1].append(st.copy())
        st.pc = FALSE

    def s_Continue(self, n, st, fr):
        fr.cont[-1].append(st.copy())
        st.pc = FALSE

    def s_If(self, n, st, fr):
        c = truth(self.expr(n.test, st))
        c = self._simp(c, st) if c not in (TRUE, FALSE) else c
        if c is TRUE:
            return self.block(n.body, st, fr)
        if c is FALSE:
            return self.block(n.orelse, st, fr)
        self.event("branch", st, n, cond=c)
        s1, s2 = st.copy(), st.copy()
        pc0 = st.pc
        p1, p2 = and_(st.pc, c), and_(st.pc, not_(c))
        s1.pc, s2.pc = p1, p2
        if s1.pc is not FALSE:
            self.block(n.body, s1, fr)
        if s2.pc is not FALSE:
            self.block(n.orelse, s2, fr)
        through = s1.pc is p1 and s2.pc is p2  # neither branch leaves
        self.adopt(st, self.merge(c, s1, s2))
        if through:
            st.pc = pc0

    def s_Match(self, n, st, fr):
        self.unknown("match", n)

    def s_With(self, n, st, fr):
        for it in n.items:
            v = self.expr(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, n)
        self.block(n.body, st, fr)

    def s_Try(self, n, st, fr):
        pre = st.copy()
        fr.tries.append([])
        self.block(n.body, st, fr)
        raised = fr.tries.pop()
        body_st = st
        if n.orelse:
            self.block(n.orelse, st, fr)
        outs = []
        if n.handlers:
            line = n.lineno
            for hn, h in enumerate(n.handlers):
                nm = ast.unparse(h.type) if h.type else "BaseException"
                s = pre.copy()
                # variables and objects changed in the body are unknown in the handler
                for k in set(_assigned(n.body)):
                    if k in st.env and st.env.get(k) is not pre.env.get(k):
                        s.env[k] = mk("mu", "exc", line, k, self.stack[-1].qual)
                c = mk("exc", self.stack[-1].qual, line, hn, nm)
                s.pc = and_(pre.pc, c)
                if h.name:
                    s.env[h.name] = mk("excval", line)
                self.block(h.body, s, fr)
                outs.append((c, s))
        cur = State(st.env, st.heap, st.pc)
        for c, s in outs:
            cur.pc = and_(cur.pc, not_(c))
        for c, s in reversed(outs):
            cur = self.merge(c, s, cur)
        self.adopt(st, cur)
        if n.finalbody:
            self.block(n.finalbody, st, fr)

    def part(self, v, e, st):
        """row of an array that is going to be changed in place: a place in the array rather than a value"""
        if isinstance(e, ast.Name) and e.id in st.env and st.env[e.id].op == "row":
            return st.env[e.id]
        if v.op not in ("seq", "fill", "comp", "sel", "phi") or v.op == "seq" and v.args[0] == "tuple" or not isinstance(e, ast.Subscript) \
                or any(isinstance(x, ast.Slice) for x in ast.walk(e.slice)):
            return v
        r = e.value
        while isinstance(r, (ast.Subscript, ast.Attribute)):
            r = r.value
        if not isinstance(r, ast.Name):
            return v
        if v.op == "seq" and v.args[0] == "list":
            return self.base(e, st)
        l = self.loc(e, st)
        if v.op in ("sel", "phi") and not (l[0].op == "obj" and self.objs[l[0]].kind == "array" or l[0].op == "row"):
            return v
        if l[0].op not in ("obj", "row", "sym", "sel") or l[1].op in ("mkey", "slice", "flatkey", "str"):
            return v
        return mk("row", l[0], l[1])

    def deref(self, st, v):
        """value at a place"""
        if v.op == "row":
            return self.getitem(st, self.deref(st, v.args[0]), v.args[1], None)
        if v.op == "phi" and any(x.op in ("row", "phi") for x in v.args[1:]):
            return phi(v.args[0], self.deref(st, v.args[1]), self.deref(st, v.args[2]))
        return v

    def mutated(self, name):
        return bool(self.stack) and name in mutated_names(self.pkg, self.stack[-1])

    def s_Assign(self, n, st, fr):
        v = self.expr(n.value, st)
        if v.op in ("seq", "fill", "comp", "sel", "phi") and isinstance(n.value, (ast.Subscript, ast.Name)) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.mutated(n.targets[0].id):
            v = self.part(v, n.value, st)
        for t in n.targets:
            self.assign(t, v, st, n)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return
        v = self.expr(n.value, st)
        if self.stack:
            ty = self.ann_type(n.annotation, self.stack[-1].mod)
            self.set_type(v, ty) if v.op in ("sel", "call", "unk") else None
        self.assign(n.target, v, st, n)

    def s_AugAssign(self, n, st, fr):
        rhs = self.expr(n.value, st)
        t = n.target
        if isinstance(t, ast.Name):
            old = st.env.get(t.id, None)
            if old is None:
                old = self.name(t.id, st, t)
            if old.op == "row":
                new = self.binop(n.op, self.snap(st, self.deref(st, old)), self.snap(st, rhs), n, st)
                return self.store((old.args[0], old.args[1]), new, st, n)
            if self.is_array(st, old):
                # in place update of an array object
                new = self.binop(n.op, self.snap(st, old), self.snap(st, rhs), n, st)
                self.event("store", st, n, base=old, key=mk("slice", NONE, NONE, NONE), val=new, old=None, inplace=True)
                if old.op == "obj":
                    st.heap.i[old] = ((HAVOC, new, None),)
                    st.heap.n += 1
                else:
                    st.env[t.id] = new
                return
            if old.op == "obj" and self.objs[old].kind == "list" and isinstance(n.op, ast.Add):
                new = self.binop(n.op, self.snap(st, old), self.snap(st, rhs), n, st)
                self.event("mutate", st, n, base=old, how="extend")
                st.heap.i[old] = ((HAVOC, new, None),)
                return
            st.env[t.id] = self.binop(n.op, self.snap(st, old), self.snap(st, rhs), n, st)
            self.event("assign", st, n, name=t.id, val=st.env[t.id], old=old)
            return
        loc = self.loc(t, st)
        old = self.read(st, loc[0], loc[1], n)
        self.note_read(st, loc[0], loc[1], old, t)
        new = self.binop(n.op, self.snap(st, old), self.snap(st, rhs), n, st)
        self.store(loc, new, st, n)

    def is_array(self, st, t):
        if t.op == "obj":
            return self.objs[t].kind == "array"
        ty = self.type_of(t)
        return ty == "nd"

    # assignment targets -----------------------------------------------
    def assign(self, t, v, st, n):
        if isinstance(t, ast.Name):
            old = st.env.get(t.id)
            st.env[t.id] = v
            self.event("assign", st, n, name=t.id, val=v, old=old)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.unknown("starred", n), st, n)
                return
            vals = [self.getitem(st, v, num(i), n) for i in range(len(t.elts))]
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, n)
            return
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, n)
        self.store(self.loc(t, st), v, st, n)

    def loc(self, t, st):
        if isinstance(t, ast.Attribute):
            if t.attr == "flat":
                return (self.expr(t.value, st), mk("flat"))
            return (self.base(t.value, st), string(t.attr))
        if isinstance(t, ast.Subscript):
            key = self.key(t.slice, st)
            if isinstance(t.value, ast.Attribute) and t.value.attr == "flat":
                b = self.base(t.value.value, st)
                return (b, mk("flatkey", key))
            b = self.base(t.value, st)
            if key.op == "seq" and len(elems(key)) >= 2:
                ks = list(elems(key))
                while len(ks) > 1 and ks[0].op not in ("slice", "ellipsis", "none"):
                    ty = self.type_of(b)
                    nb = self.sub_base(st, b, ks[0], t)
                    if nb is None:
                        break
                    b = nb
                    ks = ks[1:]
                key = ks[0] if len(ks) == 1 else mk("mkey", *ks)
            return (b, key)
        raise Undecided("target " + type(t).__name__)

    def sub_base(self, st, b, k, node):
        """location of row b[k] as a base for a further store"""
        v = self.read(st, b, k, node)
        o = self.objs.get(b)
        if o is not None and o.kind == "array" and v.op != "obj":
            return mk("row", b, k)  # rows lie in the memory of the array
        if v.op in ("obj", "sym", "sel", "call", "phi"):
            return v
        return mk("row", b, k)

    def base(self, e, st):
        """evaluate an expression whose value gets mutated"""
        if isinstance(e, ast.Name) and e.id in st.env and st.env[e.id].op == "row":
            return st.env[e.id]
        v = self.expr(e, st)
        if v.op in ("obj", "sym", "sel", "row", "cls", "mu", "phi", "call", "glob", "unk", "elem"):
            if v.op == "phi" and isinstance(e, ast.Name) and not (v.args[1].op in ("obj", "sym", "sel") and v.args[2].op in ("obj", "sym", "sel")):
                o = self.alloc("array", e, content=v)
                st.env[e.id] = o
                return o
            return v
        if isinstance(e, ast.Name):
            o = self.alloc("list" if v.op == "seq" and v.args[0] == "list" else "array", e, content=v)
            st.env[e.id] = o
            return o
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            # value stored in a location: make it an object there
            loc = self.loc(e, st)
            if isinstance(e, ast.Subscript) and v.op not in ("seq",):
                return mk("row", loc[0], loc[1])
            o = self.alloc("array", e, content=v)
            self.write(st, loc[0], loc[1], o, e, quiet=True)
            return o
        return v

    def store(self, loc, v, st, n):
        b, k = loc
        if v.op == "obj" and self.objs[v].kind in ("array", "list") and (k.op == "slice" or k.op == "mkey" and any(x.op == "slice" for x in k.args)):
            v = self.snap(st, v)  # the elements are copied
        if b.op == "row":
            # functional update of a row value
            pb, pk = b.args
            old = self.read(st, pb, pk, n)
            self.event("store", st, n, base=b, key=k, val=v, old=self.getitem(st, old, k, n) if self.olds and not self.scouting else None)
            if self.stale is not None:
                self._stale(st, b, k, v, n)
            if old.op == "obj":
                return self.write(st, old, k, v, n, quiet=True)
            if old.op == "seq" and is_int_const(k) and -len(elems(old)) <= int(k.args[0]) < len(elems(old)):
                e = list(elems(old))
                e[int(k.args[0])] = v
                new = seq(e, old.args[0])
            else:
                new = putslice(old, k, self.snap(st, v)) or mk("snap", old, ((k, v),))
            if pb.op == "row":
                return self.store((pb, pk), new, st, n)
            return self.write(st, pb, pk, new, n, quiet=True)
        if self.objs.get(b) is not None and self.objs[b].kind == "array" and v.op == "obj" and self.objs[v].kind in ("array", "list"):
            v = self.snap(st, v)
        if k.op == "str" and b.op == "obj" and self.objs[b].kind == "inst" or k.op == "str":
            # property setters are not used by the package
            pass
        self.write(st, b, k, v, n)

    # ------------------------------------------------------------ loops
    def s_For(self, n, st, fr):
        it = self.iterable(n.iter, st)
        if any(self.mutated(x) for x in _assigned_t(n.target)):
            it = self.rows(it, st)
        if "cond" in it:
            n, it = self.filtered(n, it)
        self.loop(n, st, fr, it)

    def filtered(self, n, it):
        """loop over the entries of a filtered list: a loop over all entries that passes over the others"""
        n2 = self.filters.get(n)
        if n2 is None:
            keep = lambda c: ast.copy_location(ast.Name(id="#kept", ctx=c()), n)
            t = ast.copy_location(ast.Tuple(elts=[n.target, keep(ast.Store)], ctx=ast.Store()), n)
            skip = ast.copy_location(ast.If(test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=keep(ast.Load)), n),
                                            body=[ast.copy_location(ast.Continue(), n)], orelse=[]), n)
            n2 = self.filters[n] = ast.copy_location(ast.For(target=t, iter=n.iter, body=[skip] + n.body, orelse=n.orelse), n)
        d = dict(it)
        el, cond = d["elem"], d.pop("cond")
        d["elem"] = lambda i: seq([el(i), cond(i)], "tuple")
        return n2, d

    def rows(self, it, st):
        """loop over the rows of an array that are changed in place"""
        v, el = it.get("over"), it["elem"]
        if v is None or v.op not in ("obj", "sym", "sel") or v.op == "obj" and self.objs[v].kind != "array":
            return it
        d = dict(it)

        def elem(i):
            x = el(i)
            return mk("row", v, i) if x.op in ("fill", "comp") or v.op == "obj" and x.op in ("sel", "phi") or x.op == "seq" and x.args[0] not in ("tuple", "list") else x
        d["elem"] = elem
        return d

    def s_While(self, n, st, fr):
        if not any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(n.test)) and truth(self.expr(n.test, st)) is FALSE:
            if n.orelse:
                self.block(n.orelse, st, fr)
            return
        self.loop(n, st, fr, None)

    def iterable(self, e, st):
        """-> dict(kind, lo, hi, step, elem(idx)->term) or list of terms for unrolling"""
        if isinstance(e, ast.Call):
            fnm = ast.unparse(e.func)
            if fnm in ("range", "prange", "numba.prange", "np.arange") and not e.keywords:
                a = [self.expr(x, st) for x in e.args]
                lo, hi, stp = ZERO, None, ONE
                if len(a) == 1:
                    hi = a[0]
                elif len(a) >= 2:
                    lo, hi = a[0], a[1]
                if len(a) == 3:
                    stp = a[2]
                if fnm == "np.arange" and not all(is_int(x) for x in a):
                    return self.iter_val(self.expr(e, st), st, e)
                if is_int_const(stp) and stp.args[0] < 0:
                    if is_int_const(stp) and stp.args[0] == -1:
                        return dict(lo=add(hi, ONE), hi=add(lo, ONE), step=ONE, elem=lambda i: i, rev=True, over=None)
                    return dict(lo=lo, hi=hi, step=stp, elem=lambda i: i, over=None, odd=True)
                return dict(lo=lo, hi=hi, step=stp, elem=lambda i: i, over=None)
            if fnm == "enumerate":
                inner = self.iterable(e.args[0], st)
                if "cond" in inner:
                    inner = self.unfiltered(st, inner, e)
                start = self.expr(e.args[1], st) if len(e.args) > 1 else ZERO
                for k in e.keywords:
                    if k.arg == "start":
                        start = self.expr(k.value, st)
                d = dict(inner)
                el = inner["elem"]
                lo = inner["lo"]
                d["elem"] = lambda i, el=el, lo=lo, start=start: seq([add(sub(i, lo), start), el(i)], "tuple")
                return d
            if fnm == "zip":
                its = [self.unfiltered(st, x, e) if "cond" in x else x for x in (self.iterable(a, st) for a in e.args)]
                if its:
                    ns = [sub(x["hi"], x["lo"]) for x in its]
                    # names given one by one beside values of unknown number: as an unpacking would, they are taken to be as many
                    cs = [c for c, a in zip(ns, e.args) if is_int_const(c)]
                    if cs and len(cs) < len(ns) and any(isinstance(a, (ast.Tuple, ast.List)) for c, a in zip(ns, e.args) if is_int_const(c)):
                        ns = cs
                    else:
                        # likewise a range beside sequences of unknown length
                        rs = [c for c, a in zip(ns, e.args) if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "range"]
                        if rs and len(rs) < len(ns) and all(c in rs or c.op == "len" for c in ns):
                            ns = rs
                    hi = smin(*ns) if len(ns) > 1 else ns[0]
                    return dict(lo=ZERO, hi=hi, step=ONE, over=None,
                                elem=lambda i: seq([x["elem"](add(x["lo"], i)) for x in its], "tuple"))
            if fnm.split(".")[-1] == "product" and e.args and not any(k.arg != "repeat" for k in e.keywords):
                full = e.args
                if len(full) == 1 and isinstance(full[0], ast.Starred):
                    w = self.snap(st, self.expr(full[0].value, st))
                    if w.op != "seq" and isinstance(full[0].value, ast.Call):
                        z = self.iterable(full[0].value, st)
                        if is_int_const(sub(z["hi"], z["lo"])) and z["step"] is ONE and "cond" not in z:
                            w = seq([self.snap(st, z["elem"](add(z["lo"], num(j)))) for j in range(int(sub(z["hi"], z["lo"]).args[0]))], "tuple")
                    sets_ = list(elems(w)) if w.op == "seq" else None
                elif not any(isinstance(a, ast.Starred) for a in full):
                    sets_ = []
                    for a in full:
                        z = self.iterable(a, st)
                        cnt = sub(z["hi"], z["lo"])
                        if not is_int_const(cnt) or z["step"] is not ONE or "cond" in z or cnt.args[0] > 12:
                            sets_ = None
                            break
                        sets_.append(seq([self.snap(st, z["elem"](add(z["lo"], num(j)))) for j in range(int(cnt.args[0]))], "tuple"))
                    rep = [k.value for k in e.keywords]
                    if sets_ is not None and rep:
                        sets_ = sets_ * rep[0].value if isinstance(rep[0], ast.Constant) and isinstance(rep[0].value, int) else None
                else:
                    sets_ = None
                if sets_ and all(x.op == "seq" for x in sets_):
                    import itertools
                    import math
                    if math.prod(len(elems(x)) for x in sets_) <= 64:
                        return self.iter_val(seq([seq(list(c), "tuple") for c in itertools.product(*[elems(x) for x in sets_])], "list"), st, e)
            if fnm == "reversed" and len(e.args) == 1:
                inner = dict(self.iterable(e.args[0], st))
                inner["rev"] = True
                return inner
            if fnm in ("list", "tuple", "iter", "sorted") and len(e.args) == 1 and fnm != "sorted":
                return self.iterable(e.args[0], st)
        v = self.expr(e, st)
        return self.iter_val(v, st, e)

    def iter_val(self, v, st, e):
        if v.op == "obj" and self.objs[v].kind == "file":
            f = self.objs[v].content
            pos = self.read(st, v, string("#pos"))
            return dict(lo=ZERO, hi=mk("nlines", f, pos), step=ONE, over=v,
                        elem=lambda i: mk("line", f, add(pos, i)))
        c = self.snap(st, v) if v.op == "obj" and self.objs[v].kind == "list" else v
        if c.op == "comp" and c.args[4] is not TRUE and not c.args[4].op == "unk":
            idx, lo, hi, x, g = c.args
            return dict(lo=lo, hi=hi, step=ONE, over=v, elem=lambda i: subst(x, {idx: i}), cond=lambda i: subst(g, {idx: i}))
        n = self.len_of(st, v)
        if v.op == "sel" and v.args[1].op == "slice":
            lo, hi, stp = v.args[1].args
            if stp.op == "none" and not (hi.op == "num" and hi.args[0] < 0):
                # x[a:b][i] is x[a + i]
                return dict(lo=ZERO, hi=n, step=ONE, over=v,
                            elem=lambda i: self.getitem(st, v.args[0], i if lo.op == "none" else add(lo, i), e))
        return dict(lo=ZERO, hi=n, step=ONE, over=v,
                    elem=lambda i: self.getitem(st, v, i, e))

    def unfiltered(self, st, it, e):
        """a filtered list as the list it is, by the places of its own entries"""
        v = it["over"]
        return dict(lo=ZERO, hi=self.len_of(st, v), step=ONE, over=v, elem=lambda i: self.getitem(st, v, i, e))

    def len_of(self, st, v):
        if v.op == "obj":
            o = self.objs[v]
            if o.kind in ("list", "deque", "array", "dict"):
                s = self.snap(st, v)
                while s.op == "snap" and all(k.op != "str" for k, _ in s.args[1]):
                    s = s.args[0]
                return length(s)
        if v.op == "seq":
            return num(len(elems(v)))
        if v.op == "sel" and v.args[1].op == "str" and v.args[1].args[0] in ("targets", "num_targets") and st.heap.i.get(v) is None:
            ty = self.type_of(v.args[0])
            if ty and isinstance(ty, tuple) and ty[0] == "cls" and ty[1] is not None and ty[1].name == "Frame":
                return self.read(st, v.args[0], string("num_cams"), None, True)  # one list of detections for each camera
        if v.op == "sel" and v.args[1].op == "slice":
            b, (lo, hi, stp) = v.args[0], v.args[1].args
            if stp.op == "none" and not (lo.op == "num" and lo.args[0] < 0) and hi.op not in ("none",) and not (hi.op == "num" and hi.args[0] < 0):
                return sub(hi, lo) if lo.op != "none" else hi
        return length(self.snap(st, v))

    def loop(self, n, st, fr, it):
        is_for = it is not None
        # unrolling
        if is_for and self.unroll and it["step"].op == "num" and not it.get("odd"):
            cnt = sub(it["hi"], it["lo"])
            few = self.unroll
            if is_int_const(cnt) and few < cnt.args[0] <= 32 and it["step"] is ONE and it["elem"](it["lo"]).op == "str" and \
                    all(it["elem"](add(it["lo"], num(j))).op == "str" for j in range(int(cnt.args[0]))):
                few = 32  # a fixed list of names
            if is_int_const(cnt) and 0 <= cnt.args[0] <= few and it["step"] is ONE:
                k = int(cnt.args[0])
                order = range(k)
                if it.get("rev"):
                    order = reversed(order)
                fr.brk.append([])
                for j in order:
                    if st.pc is FALSE:
                        break
                    self.assign(n.target, it["elem"](add(it["lo"], num(j))), st, n)
                    fr.cont.append([])
                    self.block(n.body, st, fr)
                    for s in reversed(fr.cont.pop()):
                        self.adopt(st, self.merge(s.pc, s, st) if st.pc is not FALSE else s)
                if n.orelse:
                    self.block(n.orelse, st, fr)
                for s in reversed(fr.brk.pop()):
                    self.adopt(st, self.merge(s.pc, s, st) if st.pc is not FALSE else s)
                return
        depth = len(self.loops)
        pre = st
        names = sorted(_assigned(n.body) | (_assigned_t(n.target) if is_for else set()))
        # ---- scouting pass: which variables and heap places change, and how
        lkey = (self.stack[-1].qual, n.lineno, depth)
        save_log = getattr(self, "scoutlog", None)
        self.scoutlog = []
        sc = st.copy()
        mus = {}
        rebound = {x.id for b_ in n.body for x in ast.walk(b_) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        if is_for:
            rebound |= _assigned_t(n.target)
        for v in names:
            if v in rebound and v in st.env and st.env[v].op == "row":
                st.env[v] = self.deref(st, st.env[v])
                sc.env[v] = st.env[v]
            if v in sc.env:
                if v not in rebound and sc.env[v].op in ("sym", "sel", "row", "cls", "mu", "call", "glob", "unk", "elem"):
                    continue  # only mutated: stays the same location
                mus[v] = mk("mu", lkey, v)
                t0 = self.type_of(sc.env[v])
                if sc.env[v].op == "num" and sc.env[v].args[0].denominator == 1 and t0 is None:
                    pass
                self.set_type(mus[v], t0 if t0 in ("int", "nd", "float") else t0)
                sc.env[v] = mus[v] if sc.env[v].op != "obj" else sc.env[v]
        # objects bound to loop variables stay the object (its content may change)
        for v in list(mus):
            if st.env[v].op == "obj":
                del mus[v]
        first_scout = self.scouting == 0
        self.scouting += 1
        oldloops = list(self.loops)
        try:
            if is_for:
                idx0 = mk("idx", depth, it["lo"], it["hi"])
            else:
                idx0 = mk("idx", depth, ZERO, mk("inf", 1))
            self.loops.append(Loop(idx0, ZERO, NONE, "for" if is_for else "while", n))
            f2 = Frame()
            f2.brk.append([])
            f2.cont.append([])
            f2.tries = [[] for _ in fr.tries]
            sc.pc = TRUE
            savedp = self.prefix
            self.prefix = and_(self.prefix, st.pc)
            if is_for:
                self.assign(n.target, it["elem"](idx0), sc, n)
            else:
                c0 = truth(self.expr(n.test, sc))
                sc.pc = c0
            scpre = c0 if not is_for else TRUE
            self.block(n.body, sc, f2)
            for s in reversed(f2.cont.pop()):
                self.adopt(sc, self.merge(s.pc, s, sc) if sc.pc is not FALSE else s)
            self.prefix = savedp
            scbrk = f2.brk.pop()
            screts = f2.rets
        finally:
            self.scouting -= 1
            self.loops = oldloops
        log = self.scoutlog
        self.scoutlog = save_log
        if save_log is not None:
            save_log.extend(log)
        # variables whose object was rebound
        for v in names:
            if v in st.env and st.env[v].op == "obj" and sc.env.get(v) is not st.env[v]:
                mus[v] = mk("mu", lkey, v)
                self.set_type(mus[v], self.type_of(st.env[v]))
        changed = {v for v in mus if sc.env.get(v) is not mus[v]}
        for s in scbrk:
            changed |= {v for v in mus if s.env.get(v) is not mus[v]}
        # induction variables
        ind = {}
        lo, hi = (it["lo"], it["hi"]) if is_for else (ZERO, mk("inf", 1))
        stepn = it["step"] if is_for else ONE
        exits_early = bool(scbrk) or bool(screts)
        for v in changed:
            e = sc.env.get(v)
            if e is None or e.op in ("obj", "seq"):
                continue
            if st.env[v].op in ("obj", "seq", "str", "none"):
                continue
            d = None
            try:
                d = sub(e, mus[v]) if e.op in ("poly", "num") else None
            except TooBig:
                pass
            if d is not None and d is not ZERO and not any(x in mus.values() for x in walk(d)) \
                    and is_num(d):
                ind[v] = d
        whilecond = None
        if not is_for:
            # while i < hi with an induction variable: a counted loop
            for c in (c0.args if c0.op == "and" else (c0,)):
                if c.op not in ("le0", "lt0"):
                    continue
                for v, d in ind.items():
                    if d is ONE and is_int(st.env[v]) or d is ONE:
                        p = c.args[0]
                        q = sub(p, mus[v])
                        if any(x in [mus[w] for w in changed] for x in walk(q)):
                            continue
                        # v + q <= 0  (int) -> v < 1 - q ; v + q < 0 -> v < -q
                        h = sub(ONE, q) if c.op == "le0" else neg(q)
                        lo, hi = st.env[v], h
                        whilecond = (v, c)
                        break
                if whilecond:
                    break
        idx = mk("idx", depth, lo, hi)
        kind = "for" if is_for or whilecond else "while"
        iters = sub(idx, lo)
        if is_for and it.get("rev"):
            iters = sub(sub(hi, ONE), idx)
        if stepn is not ONE:
            iters = div(iters, stepn)
        # ---- heap places changed
        st2 = st.copy()
        hv_fields, hv_idx = {}, set()
        hv_keys = {}  # places written, None when not known
        for k, d in log:
            b = d["base"]
            roots = _roots(b)
            for bb in ([b] if b.op != "phi" else list(_phibases(b))):
                if bb.op == "row":
                    kk = None
                    while bb.op == "row":
                        kk = bb.args[1]
                        bb = bb.args[0]
                    hv_idx.add(bb)
                    _addkey(hv_keys, bb, kk)
                    continue
                if k == "mutate" or d["key"].op != "str":
                    hv_idx.add(bb)
                    _addkey(hv_keys, bb, None if k == "mutate" else d["key"])
                else:
                    hv_fields[(bb, d["key"].args[0])] = 1
        musub = {m: 1 for m in mus.values()}
        heap0 = st2.heap.copy()
        hmus, hind, hkept = {}, {}, {}
        for (b, k) in hv_fields:
            if k.startswith("#"):
                m = mk("mu", lkey, ("f", b.id, k))
                if k == "#pos" and (b, k) in sc.heap.f:
                    # reading position advancing by the same number of lines in every pass
                    was = self.read(st, b, string(k), None, True)
                    d = sub(sc.heap.f[(b, k)][1], was)
                    if not is_num(d):
                        for cc in {x.args[0] for x in walk(d) if x.op == "phi"}:
                            d1, d0 = assume(d, cc, True), assume(d, cc, False)
                            if is_num(d1) and is_num(d0):
                                d = phi(cc, d1, d0)
                                break
                    if sc.pc is not FALSE and (is_num(d) or d.op == "phi" and is_num(d.args[1]) and is_num(d.args[2]) and not mentions(d, idx0)
                                               and not mentions_any(d, musub)):
                        m = add(was, mul(d, iters))
                        hind[(b, k)] = d
                hmus[(b, k)] = (m, self.read(st, b, string(k), None, True))
                st2.heap.n += 1
                st2.heap.f[(b, k)] = (st2.heap.n, m)
                continue
            bs = [b]
            if mentions_any(b, musub) or mentions(b, idx0):
                # element of a container chosen inside the loop: havoc the whole family
                fam = [bb for (bb, kk) in list(st2.heap.f) if kk == k and bb is not b and _samefam(bb, b)]
                for bb in fam:
                    m = mk("mu", lkey, ("f", bb.id, k))
                    st2.heap.n += 1
                    st2.heap.f[(bb, k)] = (st2.heap.n, m)
                # initial value of the others: marked as loop-changed
                continue
            if b.op == "obj" and b not in self.objs:
                continue
            old = self.read(st, b, string(k), None, True)
            m = mk("mu", lkey, ("f", b.id, k))
            self.set_type(m, self.type_of(old))
            hmus[(b, k)] = (m, old)
            st2.heap.n += 1
            st2.heap.f[(b, k)] = (st2.heap.n, m)
        for b in hv_idx:
            if b in musub or mentions_any(b, musub):
                continue
            m = mk("mu", lkey, ("i", b.id))
            self.set_type(m, self.type_of(b))
            hmus[(b, None)] = (m, st.heap.i.get(b, ()))
            st2.heap.n += 1
            kept = self._kept(st, b, hv_keys.get(b))
            hkept[b] = kept
            st2.heap.i[b] = st2.heap.i.get(b, ()) + ((HAVOC, m, None),) + kept
        # ---- real pass
        binding = {}
        for v in changed:
            if v in ind and (v in ind):
                val_ = add(st.env[v], mul(ind[v], iters))
                st2.env[v] = val_
                binding[v] = val_
            else:
                st2.env[v] = mus[v]
                binding[v] = mus[v]
        L = Loop(idx, lo, hi, kind, n, it["over"] if is_for else None)
        L.rev = bool(is_for and it.get("rev"))
        self.loops.append(L)
        savedp = self.prefix
        dom = TRUE
        if hi.op != "inf":
            dom = and_(le(lo, idx), lt(idx, hi))
        self.prefix = and_(self.prefix, st.pc, dom)
        st2.pc = TRUE
        f2 = Frame()
        f2.brk.append([])
        f2.cont.append([])
        f2.tries = [[] for _ in fr.tries]
        brkconds = []
        try:
            wc = TRUE
            if is_for:
                self.assign(n.target, it["elem"](idx), st2, n)
            else:
                wc = truth(self.expr(n.test, st2))
                wc = self._simp(wc, st2)
                st2.pc = wc
                if wc is not TRUE:
                    self.event("branch", st2, n, cond=wc)
            top = st2.copy()
            if st2.pc is not FALSE:
                self.block(n.body, st2, f2)
            for s in reversed(f2.cont.pop()):
                self.adopt(st2, self.merge(s.pc, s, st2) if st2.pc is not FALSE else s)
        finally:
            self.prefix = savedp
            self.loops.pop()
        brks = f2.brk.pop()
        for k2, lst in enumerate(f2.tries):
            fr.tries[k2].extend(lst)
        # ---- state after the loop
        self.rev = L.rev
        if not self.scouting:
            self.loopinfo.append(dict(key=lkey, func=self.stack[-1], init={v: st.env[v] for v in mus if v in st.env}, mus=dict(mus),
                                      changed=set(changed), ind=dict(ind), binding=dict(binding), end=dict(st2.env), brks=[(s.pc, dict(s.env)) for s in brks],
                                      node=n, idx=idx, lo=lo, hi=hi, exit=not_(wc) if not is_for and wc is not TRUE else None, rets=bool(f2.rets)))
        out = st.copy()
        extra_exit = not_(wc) if not is_for and wc is not TRUE else FALSE
        endconds = [s.pc for s in brks] + [r[0] for r in f2.rets]
        nobreak = not brks and not f2.rets and extra_exit is FALSE
        env_end = st2.env if st2.pc is not FALSE else {}
        for v in changed:
            e = env_end.get(v, mus[v])
            o = self.loop_out(st.env[v], mus[v], e, idx, lo, hi, stepn, nobreak, ind.get(v), lkey, v, binding, changed, mus, env_end, extra_exit, is_for)
            out.env[v] = o
        for v in names:
            if v not in st.env and v in env_end:
                out.env[v] = self.last_value(env_end[v], idx, lo, hi, lkey, v, binding)
        # heap
        for (b, k), (m, old) in hmus.items():
            if k is not None:
                e = st2.heap.f.get((b, k))
                v = e[1] if e else m
                out.heap.n += 1
                out.heap.f[(b, k)] = (out.heap.n, self.loop_out(old, m, v, idx, lo, hi, stepn, nobreak, hind.get((b, k)), lkey, (b.id, k), binding, changed, mus, env_end, extra_exit, is_for))
            else:
                out.heap.n += 1
                ent = st2.heap.i.get(b, ())
                pre_ = st.heap.i.get(b, ())
                kept = hkept.get(b, ())
                newe = ent[len(pre_) + 1 + len(kept):] if ent[:len(pre_)] == pre_ and ent[len(pre_) + 1:len(pre_) + 1 + len(kept)] == kept and len(ent) > len(pre_) and ent[len(pre_)][0] is HAVOC \
                    and ent[len(pre_)][1] is m else None
                done = False
                if newe is not None and nobreak and stepn is ONE and hi.op != "inf":
                    maps = []
                    for kk, v, g in newe:
                        off = sub(kk, idx) if kk.op in ("idx", "poly") else None
                        gg = g if isinstance(g, T) else TRUE
                        bad = isinstance(g, tuple) or off is None or mentions(off, idx) \
                            or any(x.op == "mu" and x.args[0] == lkey for x in walk(v)) \
                            or any(x.op == "mu" and x.args[0] == lkey for x in walk(gg)) or v.op == "obj"
                        if bad:
                            maps = None
                            break
                        maps.append((kk, v, (idx, lo, hi, gg)))
                    if maps is not None:
                        out.heap.i[b] = pre_ + tuple(maps)
                        done = True
                if newe == ():
                    done = True
                if not done:
                    # appended lists
                    comp = self.append_out(b, newe, ent, m, st, st2, idx, lo, hi, lkey, nobreak, old)
                    if comp is not None:
                        out.heap.i[b] = ((HAVOC, comp, None),)
                    else:
                        mo = mk("muout", lkey, ("i", b.id))
                        self.set_type(mo, self.type_of(b))
                        out.heap.i[b] = pre_ + ((HAVOC, mo, None),) + kept
        for (b, k) in hv_fields:
            if (b, k) not in hmus and not k.startswith("#"):
                e = st2.heap.f.get((b, k))
                if b.op == "obj":
                    if e:
                        out.heap.f[(b, k)] = e
                    continue
                # per-element field stores: map when unconditional over idx
                v = e[1] if e else None
                out.heap.n += 1
                mo = mk("muout", lkey, ("f", b.id, k))
                if v is not None:
                    out.heap.f[(b, k)] = (out.heap.n, v if nobreak and _plain(b, idx) and not any(x.op == "mu" and x.args[0] == lkey for x in walk(v)) else mo)
                else:
                    out.heap.f[(b, k)] = (out.heap.n, mo)
        # objects created inside keep their fields
        for kf, e in st2.heap.f.items():
            if kf not in out.heap.f and kf[0].op == "obj":
                out.heap.f[kf] = e
        for kb, e in st2.heap.i.items():
            if kb not in out.heap.i and kb.op == "obj":
                out.heap.i[kb] = e
        out.pc = st.pc
        # early exits
        exs = []
        for s in brks:
            g = and_(s.pc)
            exs.append((self.exists(idx, lo, hi, g), s, g))
        rexs = []
        for pc, v, h in f2.rets:
            c = self.exists(idx, lo, hi, pc)
            rv = self.witness(v, idx, lo, hi, pc, lkey)
            fr.rets.append((and_(st.pc, c), rv, out.heap.copy()))
            out.pc = and_(out.pc, not_(c))
            rexs.append(c)
        if not is_for:
            # negated condition holds after normal exit
            if not brks:
                env2 = State(dict(out.env), out.heap.copy(), out.pc)
                self.scouting += 1
                sl = getattr(self, "scoutlog", None)
                self.scoutlog = []
                try:
                    cend = truth(self.expr(n.test, env2))
                    if not any(x.op in ("unk",) for x in walk(cend)):
                        out.pc = and_(out.pc, not_(cend)) if cend not in (TRUE,) else out.pc
                finally:
                    self.scouting -= 1
                    self.scoutlog = sl
                if c0 is TRUE and not brks:
                    out.pc = FALSE if f2.rets == [] else FALSE
        norm = out
        if n.orelse:
            self.block(n.orelse, norm, fr)
        for c, s, g in reversed(exs):
            sb = State(dict(out.env), out.heap.copy(), and_(st.pc, c, *[not_(r) for r in rexs]))
            for v in set(changed) | {x for x in names if x in s.env}:
                if v in s.env:
                    sb.env[v] = self.witness(s.env[v], idx, lo, hi, g, lkey)
            for (b, k), (m, old) in hmus.items():
                if k is not None:
                    e = s.heap.f.get((b, k))
                    if e:
                        sb.heap.n += 1
                        sb.heap.f[(b, k)] = (sb.heap.n, self.witness(e[1], idx, lo, hi, g, lkey))
            if c0 is TRUE if not is_for else False:
                # leaves only through break
                c2 = c
                if len(exs) == 1:
                    sb.pc = st.pc
                    norm = sb
                    continue
            norm.pc = and_(norm.pc, not_(c))
            norm = self.merge(c, sb, norm)
        self.adopt(st, norm)

    def exists(self, idx, lo, hi, g):
        if g is FALSE:
            return FALSE
        if hi.op != "inf" and is_num(lo) and is_num(hi) and lo.args[0] >= hi.args[0]:
            return FALSE
        return mk("ex", idx, lo, hi, g)

    def witness(self, v, idx, lo, hi, g, lkey):
        if v.op == "obj" or is_const(v):
            return v
        if not any(x is idx or (x.op == "mu" and x.args[0] == lkey) for x in walk(v)):
            return v
        if v.op == "seq":
            return seq([self.witness(x, idx, lo, hi, g, lkey) for x in elems(v)], v.args[0])
        r = mk("lastwit" if self.rev else "wit", idx, lo, hi, g, v)
        self.set_type(r, self.type_of(v))
        return r

    def last_value(self, v, idx, lo, hi, lkey, name, binding):
        if v.op == "obj" or is_const(v):
            return v
        if not any(x is idx or (x.op == "mu" and x.args[0] == lkey) for x in walk(v)):
            return v
        if hi.op != "inf" and not any(x.op == "mu" and x.args[0] == lkey for x in walk(v)):
            return subst(v, {idx: lo if self.rev else sub(hi, ONE)})
        return mk("muout", lkey, name)

    def loop_out(self, init, mu, e, idx, lo, hi, stepn, nobreak, indstep, lkey, name, binding, changed, mus, env_end, extra_exit, is_for):
        if e is mu or e is binding.get(name):
            return init
        if isinstance(name, tuple) and name[-1] == "#stale":
            self.staleloop[mu] = (init, e)
            # may-analysis: stale if it can be so before or after the loop
            r = []
            for v in (init, e):
                v = subst(v, {mu: init})
                if v.op == "phi":
                    r += [x for x in walk(v) if x is TRUE]
                elif v is not FALSE:
                    r.append(v)
            return TRUE if r else FALSE
        if indstep is not None:
            if hi.op == "inf":
                return mk("muout", lkey, name)
            if not nobreak and not is_for:
                return mk("muout", lkey, name)
            n = sub(hi, lo)
            if stepn is not ONE:
                n = mk("fn", "ceil", div(n, stepn))
            if is_num(n):
                n = smax(n, ZERO)
            elif not is_int(n) and not (is_int(lo)):
                n = mk("fn", "count", n)
            return add(init, mul(indstep, n))
        if e.op in ("obj",) or (init.op == "obj"):
            m = mk("muout", lkey, name)
            self.set_type(m, self.type_of(e) or self.type_of(init))
            return m
        othermu = lambda t: any(x.op == "mu" and x.args[0] == lkey for x in walk(t))
        if hi.op == "inf" or not nobreak:
            m = mk("muout", lkey, name)
            self.set_type(m, self.type_of(e) or self.type_of(init))
            return m
        # value independent of earlier iterations
        if not othermu(e):
            if not mentions(e, idx):
                c = lt(lo, hi)
                return phi(c, e, init)
            c = lt(lo, hi)
            return phi(c, subst(e, {idx: lo if self.rev else sub(hi, ONE)}), init)
        try:
            if e.op in ("poly",):
                d = sub(e, mu)
                if not othermu(d):
                    return add(init, self.mksum(idx, lo, hi, d))
                # products
            if e.op == "phi":
                c, a, b = e.args
                for cc, x, y in ((c, a, b), (not_(c), b, a)):
                    if y is mu and not othermu(cc):
                        if not othermu(x):
                            if not mentions(x, idx):
                                return phi(self.exists(idx, lo, hi, cc), x, init)
                            return phi(self.exists(idx, lo, hi, cc), mk("wit" if self.rev else "lastwit", idx, lo, hi, cc, x), init)
                        d = sub(x, mu) if x.op in ("poly",) else None
                        if d is not None and not othermu(d):
                            return add(init, self.mksum(idx, lo, hi, phi(cc, d, ZERO)))
                d = sub(e, mu) if False else None
                # phi(c, mu+a, mu+b)
                da, db = sub(a, mu), sub(b, mu)
                if not othermu(da) and not othermu(db) and not othermu(c):
                    return add(init, self.mksum(idx, lo, hi, phi(c, da, db)))
            if e.op in ("max", "min") and mu in e.args:
                rest = [x for x in e.args if x is not mu]
                if not any(othermu(x) for x in rest):
                    body = rest[0] if len(rest) == 1 else mk(e.op, *rest)
                    return tm._mm(e.op, (init, mk("r" + e.op, idx, lo, hi, body)))
            if isbool(e) and e.op == "or":
                rest = [x for x in e.args if x is not mu]
                if len(rest) < len(e.args) and not any(othermu(x) for x in rest):
                    return or_(init, self.exists(idx, lo, hi, or_(*rest)))
            if isbool(e) and e.op == "and":
                rest = [x for x in e.args if x is not mu]
                if len(rest) < len(e.args) and not any(othermu(x) for x in rest):
                    return and_(init, not_(self.exists(idx, lo, hi, not_(and_(*rest)))))
        except TooBig:
            pass
        m = mk("muout", lkey, name)
        self.set_type(m, self.type_of(e) or self.type_of(init))
        return m

    def mksum(self, idx, lo, hi, d):
        if d is ZERO:
            return ZERO
        if not mentions(d, idx):
            if is_int(sub(hi, lo)):
                return mul(d, sub(hi, lo))
        return mk("sum", idx, lo, hi, d)

    def append_out(self, b, newe, ent, m, st, st2, idx, lo, hi, lkey, nobreak, old):
        o = self.objs.get(b)
        if o is None or o.kind not in ("list",):
            return None
        last = ent[-1] if ent else None
        if last is None or last[0] is not HAVOC:
            return None
        v = last[1]
        g = TRUE
        app = v
        if v.op == "phi":
            if v.args[2].op in ("mu",):
                g, app = v.args[0], v.args[1]
            elif v.args[1].op in ("mu",):
                g, app = not_(v.args[0]), v.args[2]
        if app.op == "hphi":
            g, app, rest = app.args
        if app.op != "appended" or app.args[0] is not m:
            return None
        x = app.args[1]
        if any(y.op == "mu" and y.args[0] == lkey for y in walk(x)) or any(y.op == "mu" and y.args[0] == lkey for y in walk(g)):
            return None
        if not nobreak or self.rev or hi.op == "inf":
            return None
        base = o.content if o.content is not None else seq((), "list")
        pre = st.heap.i.get(b, ())
        c = mk("comp", idx, lo, hi, x, g)
        if base.op == "seq" and not elems(base) and not pre:
            return c
        return None

    # ------------------------------------------------------------ expressions
    def expr(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown("expression " + type(e).__name__, e)
        return m(e, st)

    def e_Constant(self, e, st):
        return self._lit(e.value)

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def name(self, nm, st, e):
        if nm in st.env:
            v = st.env[nm]
            return self.deref(st, v) if v.op == "row" or v.op == "phi" and any(x.op == "row" for x in v.args[1:]) else v
        mod = self.stack[-1].mod if self.stack else None
        f = self.stack[-1] if self.stack else None
        r = self.pkg.resolve(mod, nm) if mod else None
        if r:
            return self.wrap(r)
        return mk("builtin", nm)

    def wrap(self, r):
        k = r[0]
        if k == "func":
            t = mk("func", r[1].qual, r[1].mod.name)
            self.closures[t] = (r[1], None)
            return t
        if k == "cls":
            t = mk("cls", r[1].name, r[1].mod.name)
            self.types[t] = ("cls", r[1])
            return t
        if k == "const":
            return self.const_eval(r[2], r[1])
        if k == "mod":
            t = mk("mod", r[1].name)
            return t
        return mk("ext", r[1])

    def e_Attribute(self, e, st):
        b = self.expr(e.value, st)
        return self.getattr(st, b, e.attr, e)

    def getattr(self, st, b, attr, e):
        if b.op == "ext":
            full = b.args[0] + "." + attr
            if full in ("numpy.inf", "math.inf", "numpy.Inf"):
                return mk("inf", 1)
            if full in ("numpy.nan", "math.nan", "numpy.NaN"):
                return mk("nan")
            if full in ("numpy.pi", "math.pi"):
                return mk("pi")
            return mk("ext", full)
        if b.op == "mod":
            m = self.pkg.mods[b.args[0]]
            r = self.pkg.resolve(m, attr)
            if r:
                return self.wrap(r)
            return mk("ext", b.args[0] + "." + attr)
        if b.op == "phi" and all(x.op in ("obj", "sel", "sym", "phi", "rec", "none") for x in b.args[1:]):
            if b.args[1].op == "none":
                return self.getattr(st, b.args[2], attr, e)
            if b.args[2].op == "none":
                return self.getattr(st, b.args[1], attr, e)
            return phi(b.args[0], self.getattr(st, b.args[1], attr, e), self.getattr(st, b.args[2], attr, e))
        if attr == "shape":
            s = self.snap(st, b)
            if b.op == "obj" and s.op not in ("seq", "fill") and b in self.objs and isinstance(self.objs[b].shape, T):
                sh = self.objs[b].shape
                if sh.op == "seq":
                    return sh
                if is_int(sh):
                    return seq([sh], "tuple")
            while s.op == "snap" and not any(k.op == "str" for k, _ in s.args[1]):
                s = s.args[0]
            if s.op == "seq":
                if elems(s) and elems(s)[0].op == "seq":
                    return seq([num(len(elems(s))), num(len(elems(elems(s)[0])))], "tuple")
                return seq([num(len(elems(s)))], "tuple")
            if s.op == "fill":
                return s.args[1] if s.args[1].op == "seq" else seq([s.args[1]], "tuple")
            if s.op == "cp":
                s = s.args[0]
            r = mk("shape", s)
            return r
        if attr == "size" and self.type_of(b) == "nd":
            return mk("size", self.snap(st, b))
        if attr == "T":
            s = self.snap(st, b)
            if s.op == "seq" and elems(s) and elems(s)[0].op == "seq":
                from .externs import transpose
                return transpose(s)
            return mk("fn", "transpose", s)
        if attr in ("__annotations__", "__dataclass_fields__"):
            ty = self.type_of(b)
            if ty and isinstance(ty, tuple) and ty[0] == "cls" and ty[1] is not None:
                fs = [f[0] for f in (self.pkg.fields(ty[1]) if attr != "__annotations__" else ty[1].fields)]
                if fs:
                    return seq([string(x) for x in fs], "list")
        if attr == "_fields" and b in NTUPLES:
            return seq([string(x) for x in NTUPLES[b]], "tuple")
        if attr == "flat":
            return mk("fn", "flat", self.snap(st, b))
        ty = self.type_of(b)
        if ty and isinstance(ty, tuple) and ty[0] == "cls" and ty[1] is not None:
            m = self.pkg.method(ty[1], attr)
            if m is not None:
                if m.prop:
                    return self.call_func(m, [b], {}, st, e)
                t = mk("bound", b, m.qual, m.mod.name)
                self.closures[t] = (m, b)
                return t
        v = self.read(st, b, string(attr), e)
        self.note_read(st, b, string(attr), v, e)
        return v

    def note_read(self, st, b, k, v, e):
        if self.rec_reads and not self.scouting:
            self.event("read", st, e, base=b, key=k, val=v)

    def key(self, e, st):
        if isinstance(e, ast.Slice):
            f = lambda x: self.expr(x, st) if x is not None else NONE
            lo, hi, stp = f(e.lower), f(e.upper), f(e.step)
            if lo is ZERO:
                lo = NONE
            return mk("slice", lo, hi, stp)
        if isinstance(e, ast.Tuple):
            return seq([self.key(x, st) for x in e.elts], "tuple")
        k = self.expr(e, st)
        return self.snap(st, k)

    def e_Subscript(self, e, st):
        b = self.expr(e.value, st)
        k = self.key(e.slice, st)
        return self.getitem(st, b, k, e)

    def getitem(self, st, b, k, e):
        if self.identity and k.op == "slice" and (b.op == "obj" and self.objs[b].kind == "array" or b.op in ("sym", "sel") and self.type_of(b) == "nd"):
            self.identity = False
            r = self.alloc("array", e, content=self.snap(st, self.getitem(st, b, k, e)))
            self.identity = True
            self.objs[r].view = b
            return r
        if self.identity and k.op == "slice" and b.op in ("sym", "sel") and isinstance(self.type_of(b), tuple) and self.type_of(b)[0] == "list":
            return self.alloc("list", e, content=b)
        if k.op == "seq" and len(elems(k)) > 1 and b.op not in ("ext", "cls", "builtin") and not (self.type_of(b) and isinstance(self.type_of(b), tuple) and self.type_of(b)[0] == "dict"):
            ks = list(elems(k))
            cur = b
            while ks and ks[0].op not in ("slice", "ellipsis", "none"):
                cur = self.getitem(st, cur, ks[0], e)
                ks = ks[1:]
            if not ks:
                return cur
            # a[:, j]
            if len(ks) == 1:
                return self.getitem(st, cur, ks[0], e)
            s = self.snap(st, cur)
            if s.op == "seq" and ks[0].op == "slice" and all(x.op == "none" for x in ks[0].args) and len(ks) == 2:
                rows = [self.getitem(st, x, ks[1], e) for x in elems(s)]
                return seq(rows, "array")
            return mk("sel", s, mk("mkey", *ks))
        if k.op == "seq" and len(elems(k)) == 1 and k.args[0] == "tuple":
            k = elems(k)[0]
        if b.op == "sel" and b.args[1].op == "str" and k.op not in ("str", "slice", "mkey", "ellipsis", "none", "seq") and self.type_of(b.args[0]) == "nd" and (
                b.args[0].op == "sym" or b.args[0].op == "sel" and b.args[0].args[1].op == "str") and b.args[1].args[0] in self.pkg._columns:
            # a column of a record array: the field of the record
            return self.getattr(st, self.getitem(st, b.args[0], k, e), b.args[1].args[0], e)
        if b.op == "ext" and b.args[0].endswith(".r_"):
            out = []
            for x in (elems(k) if k.op == "seq" and k.args[0] == "tuple" else [k]):
                x = self.snap(st, x)
                if x.op == "seq":
                    out.extend(elems(x))
                elif x.op in ("slice",) or self.is_vec(x):
                    return mk("fn", "concat", k)
                else:
                    out.append(x)
            return self.alloc("array", e, content=seq(out, "array"))
        if b.op == "cls" or b.op == "ext" or b.op == "builtin":
            return b  # generic alias
        if b.op == "shape":
            if is_int_const(k) and k.args[0] == 0:
                return length(b.args[0])
            t = mk("shp", b.args[0], k)
            INTS.add(t)
            return t
        if b.op == "phi" and b.args[1].op in ("obj", "sel", "sym", "seq", "phi", "poly") and b.args[2].op in ("obj", "sel", "sym", "seq", "phi", "poly"):
            return phi(b.args[0], self.getitem(st, b.args[1], k, e), self.getitem(st, b.args[2], k, e))
        if k.op == "str" and self.objs.get(b) is not None and self.objs[b].kind == "dict":
            v = self.read(st, b, k, e)
            return v
        if b.op == "seq" and k.op == "slice":
            return self._slice(b, k)
        if is_int_const(k) and k.args[0] < 0:
            n = self.len_of(st, b) if b.op in ("obj", "seq") else None
            if n is not None and is_int_const(n):
                k = add(n, k)
        if b.op == "poly" and k.op != "str":
            v = self.poly_index(st, b, k, e)
        elif b.op in ("max", "min", "neg") and k.op != "str":
            v = mk(b.op, *[self.getitem(st, x, k, e) for x in b.args])
        else:
            v = self.read(st, b, k, e)
        self.note_read(st, b, k, v, e)
        return v

    def is_vec(self, t):
        ty = self.type_of(t)
        if ty == "nd" or ty and isinstance(ty, tuple) and ty[0] in ("list", "tuple"):
            return True
        if ty in ("float", "int", "str", "bool"):
            return False
        if t.op in ("seq", "fill", "comp"):
            return True
        if t.op in ("fn", "op") and t.args[0] in ("matmul", "cross", "unit"):
            return True
        if t.op in ("sqrt", "num", "len", "idx", "max", "min", "pow") or t.op == "fn":
            return False
        if t.op == "paren":
            return any(self.is_vec(a) for m, _ in topoly(t.args[0]).items() for a, _e in m)
        return None

    def poly_index(self, st, b, k, e):
        r = ZERO
        for m, c in topoly(b).items():
            p = mk("num", c)
            if not m:
                r = add(r, p)
                continue
            vs = [self.is_vec(a) for a, _ in m]
            anyv = any(v is True for v in vs)
            for (a, ex), v in zip(m, vs):
                if v is True or (not anyv and v is None):
                    if a.op == "paren":
                        x = self.poly_index(st, a.args[0], k, e)
                    else:
                        x = self.getitem(st, a, k, e)
                    p = mul(p, power(x, num(ex)))
                else:
                    p = mul(p, power(a, num(ex)))
            r = add(r, p)
        return r

    def e_Slice(self, e, st):
        return self.key(e, st)

    def e_Tuple(self, e, st):
        return seq(self.elts(e.elts, st), "tuple")

    def elts(self, el, st):
        out = []
        for x in el:
            if isinstance(x, ast.Starred):
                v = self.snap(st, self.expr(x.value, st))
                if v.op == "seq":
                    out.extend(elems(v))
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.expr(x, st))
        return out

    def e_List(self, e, st):
        c = seq(self.elts(e.elts, st), "list")
        et = None
        if elems(c):
            et = self.type_of(elems(c)[0])
        return self.alloc("list", e, content=c, etype=et)

    def e_Set(self, e, st):
        return mk("set", tuple(sorted((self.expr(x, st) for x in e.elts), key=lambda t: t.id)))

    def e_Dict(self, e, st):
        o = self.alloc("dict", e, content=mk("emptydict"))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.event("mutate", st, e, base=o, how="update")
                src = self.snap(st, self.expr(v, st))
                self.objs[o].content = src
                continue
            kk = self.snap(st, self.expr(k, st))
            vv = self.expr(v, st)
            self.write(st, o, kk, vv, e, quiet=True)
        return o

    def e_Starred(self, e, st):
        return mk("star", self.snap(st, self.expr(e.value, st)))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(string(str(v.value)))
            else:
                x = self.snap(st, self.expr(v.value, st))
                spec = ""
                if v.format_spec is not None:
                    sp = self.expr(v.format_spec, st)
                    spec = sp.args[0] if sp.op == "str" else show(sp)
                if x.op == "str" and not spec:
                    parts.append(x)
                elif x.op == "fmt" and not spec:
                    parts.extend(x.args)
                else:
                    parts.append(mk("fv", x, spec))
        return fmt(parts)

    def e_FormattedValue(self, e, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), st)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        s = st
        pc0 = st.pc
        raw = []
        for x in e.values:
            v = self.expr(x, st)
            raw.append(v)
            t = truth(v)
            vals.append(t)
            st.pc = and_(st.pc, t if isand else not_(t))
        st.pc = pc0
        if all(isbool(v) for v in raw):
            return (and_ if isand else or_)(*vals)
        r = raw[-1]
        for v, t in zip(reversed(raw[:-1]), reversed(vals[:-1])):
            r = phi(t, r, v) if isand else phi(t, v, r)
        return r

    def e_UnaryOp(self, e, st):
        v = self.snap(st, self.expr(e.operand, st))
        if isinstance(e.op, ast.Not):
            return not_(truth(v))
        if isinstance(e.op, ast.USub):
            return self._num(neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isbool(v):
                return not_(v)
            return mk("fn", "invert", v)

    def _num(self, f, *a):
        try:
            return f(*a)
        except TooBig:
            return mk("op", f.__name__, *a)

    def e_BinOp(self, e, st):
        a = self.expr(e.left, st)
        b = self.expr(e.right, st)
        r = self.binop(e.op, self.snap(st, a), self.snap(st, b), e, st)
        if r.op == "seq" and r.args[0] == "list" and (a.op == "obj" or b.op == "obj"):
            r = self.alloc("list", e, content=r)  # a list of its own
        return r

    def binop(self, op, a, b, node=None, st=None):
        o = type(op).__name__
        try:
            if o == "Add":
                if a.op == "seq" and a.args[0] == "tuple" and b.op in ("sel", "sym", "comp", "call") and \
                        isinstance(node, ast.BinOp) and isinstance(node.right, ast.Call) and ast.unparse(node.right.func) == "tuple":
                    return mk("fn", "concat", a, b)
                r = add(a, b)
            elif o == "Sub":
                r = sub(a, b)
            elif o == "Mult":
                r = mul(a, b)
            elif o == "Div":
                if st is not None and self.rec_arith:
                    self.event("div", st, node, num=a, den=b)
                if a.op == "sym" and self.type_of(a) == "Path" or b.op == "str":
                    return mk("fn", "joinpath", a, b)
                r = div(a, b)
            elif o == "Pow":
                r = power(a, b)
            elif o == "FloorDiv":
                if is_int_const(a) and is_int_const(b) and b is not ZERO:
                    return num(int(a.args[0]) // int(b.args[0]))
                r = fn("floordiv", a, b)
            elif o == "Mod":
                if a.op == "str":
                    return self.pct_format(a, b)
                if is_int_const(a) and is_int_const(b) and b is not ZERO:
                    return num(int(a.args[0]) % int(b.args[0]))
                r = fn("mod", a, b)
                if is_int(a) and is_int(b):
                    INTS.add(r)
            elif o == "MatMult":
                r = self.matmul(a, b)
            elif o in ("BitAnd", "BitOr"):
                if is_int_const(a) and is_int_const(b) and a not in (TRUE, FALSE) and b not in (TRUE, FALSE):
                    i, j = int(a.args[0]), int(b.args[0])
                    return num(i & j if o == "BitAnd" else i | j)
                if isbool(a) and isbool(b):
                    return (and_ if o == "BitAnd" else or_)(a, b)
                r = mk("fn", o, *sorted((a, b), key=lambda t: t.id))
            elif o in ("LShift", "RShift") and is_int_const(a) and is_int_const(b):
                r = num(int(a.args[0]) << int(b.args[0]) if o == "LShift" else int(a.args[0]) >> int(b.args[0]))
            else:
                r = mk("fn", o, a, b)
        except TooBig:
            r = mk("op", o, a, b)
        return r

    def pct_format(self, a, b):
        import re
        args = list(elems(b)) if b.op == "seq" and b.args[0] == "tuple" else [b]
        parts, pos, i = [], 0, 0
        for m in re.finditer(r"%(%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])", a.args[0]):
            parts.append(string(a.args[0][pos:m.start()]))
            pos = m.end()
            if m.group(1) == "%":
                parts.append(string("%"))
                continue
            if i < len(args):
                sp = m.group(1)
                if sp[-1] in "dis" and len(sp) == 1:
                    parts.append(mk("fv", args[i], "") if args[i].op not in ("str",) else args[i])
                else:
                    parts.append(mk("fv", args[i], sp))
                i += 1
        parts.append(string(a.args[0][pos:]))
        return fmt(parts)

    def dot(self, a, b):
        if a.op == "seq" and b.op == "seq" and len(elems(a)) == len(elems(b)) \
                and not (elems(a) and elems(a)[0].op == "seq"):
            if elems(b) and elems(b)[0].op == "seq":
                cols = len(elems(elems(b)[0]))
                return seq([self.dot(a, seq([sel(r, num(j)) for r in elems(b)], "array")) for j in range(cols)], "array")
            r = ZERO
            for x, y in zip(elems(a), elems(b)):
                r = add(r, mul(x, y))
            return r
        if a.op == "seq" and elems(a) and elems(a)[0].op == "seq":
            return seq([self.dot(r, b) for r in elems(a)], "array")
        # bilinearity for scalar multiples is left alone
        return mk("fn", "dot", *sorted((a, b), key=lambda t: t.id))

    def matmul(self, a, b):
        if a.op == "seq" and b.op == "seq":
            ea = elems(a)
            if ea and ea[0].op == "seq":
                if elems(b) and elems(b)[0].op == "seq":
                    return seq([self.dot(r, b) for r in ea], "array")
                return seq([self.dot(r, b) for r in ea], "array")
            return self.dot(a, b)
        return mk("fn", "matmul", a, b)

    def e_Compare(self, e, st):
        left = self.expr(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r, st)
            out.append(self.compare(op, left, right, st, e))
            left = right
        if len(out) == 1:
            return out[0]
        return and_(*out)

    def compare(self, op, a, b, st, e):
        o = type(op).__name__
        if o in ("Is", "IsNot"):
            if a.op in ("obj",) and b.op == "obj":
                r = TRUE if a is b else FALSE
            elif b.op == "none" or a.op == "none":
                r = eq(a, b)
                x = a if b.op == "none" else b
                if r.op == "eq" and x.op in ("sym", "sel") and False:
                    pass
            elif b.op == "bool" or a.op == "bool":
                r = eq(a, b)
            else:
                r = mk("eq", *sorted((a, b), key=lambda t: t.id)) if a is not b else TRUE
            return r if o == "Is" else not_(r)
        if o in ("Eq", "NotEq"):
            # dataclass / __eq__ methods
            for x, y in ((a, b), (b, a)):
                ty = self.type_of(x)
                if ty and isinstance(ty, tuple) and ty[0] == "cls" and y.op not in ("none", "num", "str"):
                    m = self.pkg.method(ty[1], "__eq__")
                    if m is not None and m not in self.stack and "__eq__" not in self.opaque:
                        r = truth(self.call_func(m, [x, y], {}, st, e))
                        return r if o == "Eq" else not_(r)
                    if ty[1].dataclass and m is None:
                        r = and_(*[self.eqv(self.read(st, x, string(f[0])), self.read(st, y, string(f[0])), st)
                                   for f in self.pkg.fields(ty[1])])
                        return r if o == "Eq" else not_(r)
            r = self.eqv(a, b, st)
            return r if o == "Eq" else not_(r) if isbool(r) else mk("fn", "invert", r)
        a, b = self.snap(st, a), self.snap(st, b)
        if a.op == "none" or b.op == "none":
            return mk("truth", mk("fn", o, a, b))
        try:
            if o == "Lt":
                return lt(a, b)
            if o == "LtE":
                return le(a, b)
            if o == "Gt":
                return lt(b, a)
            if o == "GtE":
                return le(b, a)
        except TooBig:
            return mk("truth", mk("op", o, a, b))
        if o in ("In", "NotIn"):
            if b.op == "seq":
                r = or_(*[eq(a, x) for x in elems(b)])
            elif b.op == "set":
                r = or_(*[eq(a, x) for x in b.args[0]])
            else:
                r = mk("in", a, b)
            return r if o == "In" else not_(r)
        return self.unknown("compare " + o, e)

    def eqv(self, a, b, st):
        return eq(self.snap(st, a), self.snap(st, b))

    def e_IfExp(self, e, st):
        c = truth(self.expr(e.test, st))
        c = self._simp(c, st) if c not in (TRUE, FALSE) else c
        if c is TRUE:
            return self.expr(e.body, st)
        if c is FALSE:
            return self.expr(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = and_(st.pc, c), and_(st.pc, not_(c))
        a = self.expr(e.body, s1)
        b = self.expr(e.orelse, s2)
        pc = st.pc
        m = self.merge(c, s1, s2)
        self.adopt(st, m)
        st.pc = pc if s1.pc is not FALSE and s2.pc is not FALSE else m.pc
        return phi(c, a, b)

    def e_Lambda(self, e, st):
        f = Func(self.stack[-1].mod, _lam(e), None, self.stack[-1])
        t = mk("func", "<lambda>", id(e), len(self.stack))
        self.closures[t] = (f, st.env)
        return t

    def e_NamedExpr(self, e, st):
        v = self.expr(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_DictComp(self, e, st):
        if len(e.generators) == 1:
            d = self.comp(e, st, "dict")
            return d
        return self.unknown("dictcomp", e)

    def comp(self, e, st, kind):
        if len(e.generators) != 1:
            return self.comp_multi(e, st, kind)
        g = e.generators[0]
        it = self.iterable(g.iter, st)
        cnt = sub(it["hi"], it["lo"])
        sc = st.copy()
        if is_int_const(cnt) and 0 <= cnt.args[0] <= max(24, self.unroll) and it["step"] is ONE and kind != "dict":
            out = []
            ok = True
            for j in range(int(cnt.args[0])):
                self.assign(g.target, it["elem"](add(it["lo"], num(j))), sc, e)
                cs = [it["cond"](add(it["lo"], num(j)))] if "cond" in it else []
                cs += [truth(self.expr(c, sc)) for c in g.ifs]
                c = self._simp(and_(*cs), sc)
                if c is FALSE:
                    continue
                if c is not TRUE:
                    ok = False
                    break
                out.append(self.expr(e.elt, sc))
            if ok:
                if it.get("rev"):
                    out.reverse()
                st.heap = sc.heap
                c = seq(out, "list")
                return self.alloc("list", e, content=c, etype=self.type_of(out[0]) if out else None) if kind == "list" else c
            sc = st.copy()
        depth = len(self.loops)
        idx = mk("idx", depth, it["lo"], it["hi"])
        self.loops.append(Loop(idx, it["lo"], it["hi"], "comp", e, it["over"]))
        savedp = self.prefix
        self.prefix = and_(self.prefix, st.pc, le(it["lo"], idx), lt(idx, it["hi"]) if it["hi"].op != "inf" else TRUE)
        sc.pc = TRUE
        try:
            self.assign(g.target, it["elem"](idx), sc, e)
            gd = it["cond"](idx) if "cond" in it else TRUE
            for c in g.ifs:
                gd = and_(gd, truth(self.expr(c, sc)))
            sc.pc = gd
            if kind == "dict":
                k = self.expr(e.key, sc)
                v = self.expr(e.value, sc)
                x = seq([self.snap(sc, k), self.snap(sc, v)], "tuple")
            else:
                v = self.expr(e.elt, sc)
                x = self.snap(sc, v)
            for (b, kk), (n_, vv) in list(sc.heap.f.items()):
                if kk is not string("#pos"):
                    continue
                old = self.read(st, b, string("#pos"))
                stride = sub(vv, old)
                if stride is ZERO:
                    continue
                off = mul(stride, sub(idx, it["lo"]))
                fc = self.objs[b].content
                x = subst(x, {z: mk("line", fc, add(z.args[1], off)) for z in walk(x) if z.op == "line" and z.args[0] is fc})
                for z in walk(x):
                    if z.op == "line":
                        self.types[z] = "str"
                self.write(st, b, string("#pos"), add(old, mul(stride, sub(it["hi"], it["lo"]))), e, quiet=True)
        finally:
            self.loops.pop()
            self.prefix = savedp
        et = self.type_of(v)
        if kind == "dict":
            return self.alloc("dict", e, content=mk("dictcomp", idx, it["lo"], it["hi"], x, gd))
        c = mk("comp", idx, it["lo"], it["hi"], x, gd)
        if gd is TRUE and it["lo"] is ZERO and x.op == "sel" and x.args[1] is idx and it["hi"] is length(x.args[0]) and not any(y is idx for y in walk(x.args[0])):
            c = x.args[0]  # every element in its place: a copy
        if kind == "list":
            o = self.alloc("list", e, content=c, etype=et)
            if et is not None and isinstance(et, tuple) and et[0] == "cls":
                fresh = v.op == "obj"
                self.objs[o].fresh_elems = fresh
            return o
        self.set_type(c, ("list", et) if et else None)
        return c

    def comp_multi(self, e, st, kind):
        return self.unknown("nested comprehension", e)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        # method calls on values
        if isinstance(f, ast.Attribute):
            b = self.expr(f.value, st)
            return self.call_attr(b, f.attr, e, st)
        fv = self.expr(f, st)
        return self.call_value(fv, e, st)

    def args(self, e, st):
        a, kw = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.snap(st, self.expr(x.value, st))
                if v.op == "seq":
                    a.extend(elems(v))
                else:
                    a.append(mk("star", v))
            else:
                a.append(self.expr(x, st))
        for k in e.keywords:
            v = self.expr(k.value, st)
            if k.arg is None:
                if v.op == "obj" and self.objs[v].kind == "dict":
                    got = False
                    for (b, kk), (n, vv) in st.heap.f.items():
                        if b is v:
                            kw[kk] = vv
                            got = True
                    if self.objs[v].content is not None and self.objs[v].content.op != "emptydict":
                        kw["**"] = self.snap(st, v)
                else:
                    kw["**"] = self.snap(st, v)
            else:
                kw[k.arg] = v
        return a, kw

    def call_value(self, fv, e, st):
        if fv.op in ("func", "bound"):
            f, cl = self.closures[fv]
            a, kw = self.args(e, st)
            if fv.op == "bound":
                return self.call_func(f, [cl] + a, kw, st, e)
            return self.call_func(f, a, kw, st, e, closure=cl)
        if fv.op == "cls":
            a, kw = self.args(e, st)
            return self.instantiate(self.types[fv][1], a, kw, st, e)
        if fv.op == "builtin":
            return self.call_builtin(fv.args[0], e, st)
        if fv.op == "ext":
            return self.call_ext(fv.args[0], e, st)
        a, kw = self.args(e, st)
        if fv.op == "super":
            return fv
        if fv in NTUPLES and len(a) <= len(NTUPLES[fv]) and not any(x.op == "star" for x in a) and "**" not in kw:
            o = self.alloc("inst", e)
            vals = dict(zip(NTUPLES[fv], a))
            vals.update(kw)
            for k, v in vals.items():
                self.write(st, o, string(k), v, e, quiet=True)
            return o
        self.event("calldyn", st, e, f=fv, args=a)
        return mk("call", "dyn", fv, *[self.snap(st, x) for x in a])

    def bind(self, func, a, kw, st):
        b = {}
        ps = list(func.params)
        a = list(a)
        if any(x.op == "star" for x in a):
            # f(*xs): elements of xs by position
            out = []
            for m, x in enumerate(a):
                if x.op == "star":
                    need = len(ps) - len(out) - len(a[m + 1:]) - sum(k in ps for k in kw)
                    n = self.len_of(st, x.args[0])
                    if is_int_const(n):
                        need = int(n.args[0])
                    for j in range(need):
                        out.append(self.getitem(st, x.args[0], num(j), None))
                else:
                    out.append(x)
            a = out
        for p, v in zip(ps, a):
            b[p] = v
        if len(a) > len(ps) and func.vararg:
            b[func.vararg] = seq(a[len(ps):], "tuple")
        elif func.vararg:
            b[func.vararg] = seq((), "tuple")
        for k, v in kw.items():
            if k == "**":
                continue
            b[k] = v
        if "**" in kw:
            for p in ps + func.kwonly:
                if p not in b:
                    b[p] = sel(kw["**"], string(p))
        if func.kwarg:
            b[func.kwarg] = mk("unk", "kwargs", 0, 0, func.qual)
        for p, d in func.defaults.items():
            if p not in b:
                b[p] = self.const_eval(d, func.mod)
        for p in ps + func.kwonly:
            if p not in b:
                b[p] = mk("unk", "missing argument " + p, 0, 0, func.qual)
        return b

    def fieldof(self, st, v, name):
        """the object a field holds now, without an event"""
        h = st.heap.f.get((v, name))
        return h[1] if h is not None else mk("sel", v, string(name)) if v.op != "obj" else None

    def call_func(self, func, a, kw, st, e, closure=None):
        if func.classm and (not a or a[0].op != "cls"):
            # called through an instance or class
            pass
        b = self.bind(func, a, kw, st)
        opq = func.qual in self.opaque or (func.mod.name + "." + func.qual) in self.opaque
        fl = {}
        if opq and self.stale is not None:
            for p, v in b.items():
                if v.op in ("sym", "obj", "sel"):
                    for x in (v, self.fieldof(st, v, "ext_par")):
                        if x is not None and (x, "#stale") in st.heap.f:
                            fl[p] = st.heap.f[(x, "#stale")][1]
        self.event("call", st, e, name=func.qual, mod=func.mod.name, args=b, fn=func, stale=fl)
        if isinstance(e, ast.Call) and not any(x.op == "star" for x in a) and len(a) - len(e.args) in (0, 1) and any(isinstance(x, (ast.Subscript, ast.Name)) for x in e.args):
            off = len(a) - len(e.args)
            for p, v, x in zip(func.params[off:], a[off:], e.args):
                if v.op in ("seq", "fill", "comp", "sel", "phi") and isinstance(x, (ast.Subscript, ast.Name)) and (p in mutated_names(self.pkg, func) and not opq or p in self.effects.get(func.qual, ())):
                    b[p] = self.part(v, x, st)
        if opq:
            return self.opaque_call(func, b, st, e)
        if func in self.stack or len(self.stack) >= self.maxdepth:
            return self.opaque_call(func, b, st, e)
        # types from annotations
        for p, an in func.ann.items():
            if p in b and b[p].op in ("sym", "sel", "call", "unk", "mu", "wit", "muout"):
                if b[p] not in self.types:
                    self.set_type(b[p], self.ann_type(an, func.mod))
        try:
            v, _ = self.run(func, b, st, e, closure)
            return v
        except Undecided as ex:
            if "budget" in str(ex) or "events" in str(ex):
                raise
            return self.opaque_call(func, b, st, e)

    def fields_now(self, st, v, paths):
        """the fields of an argument as they are at the call"""
        out = []
        for p in paths:
            t = v
            for x in p.split("."):
                t = self.getattr(st, t, x, None) if not x.isdigit() else self.getitem(st, t, num(int(x)), None)
            out.append(self.snap(st, self.deref(st, t)))
        return seq(out, "tuple")

    def opaque_call(self, func, b, st, e):
        eff = self.effects.get(func.qual)
        args = [self.snap(st, self.deref(st, b[p])) if p not in self.argstate.get(func.qual, ()) else self.fields_now(st, b[p], self.argstate[func.qual][p])
                for p in func.params + func.kwonly if p in b]
        t = mk("call", func.qual, *args)
        ty = self.ann_type(func.node.returns, func.mod) if not isinstance(func.node, ast.Lambda) and func.node.returns is not None else None
        self.set_type(t, ty)
        if eff:
            for p in eff:
                if p in b:
                    base = b[p]
                    self.event("mutate", st, e, base=base, how="call " + func.qual)
                    st.heap.n += 1
                    nv = mk("after", func.qual, p, *args)
                    if base.op == "row":
                        self.store((base.args[0], base.args[1]), nv, st, e)
                        continue
                    self.set_type(nv, self.type_of(base))
                    st.heap.i[base] = ((HAVOC, nv, None),)
                    for (bb, k) in list(st.heap.f):
                        if bb is base:
                            st.heap.f[(bb, k)] = (st.heap.n, sel(nv, string(k)))
        return shaped(t, SHAPES.get(func.qual))

    def instantiate(self, cls, a, kw, st, e):
        self.event("new", st, e, cls=cls.name, args=a, kw=kw)
        init = self.pkg.method(cls, "__init__")
        o = self.alloc("inst", e, cls=cls)
        if init is not None:
            self.call_func(init, [o] + list(a), kw, st, e)
            return o
        if "NamedTuple" in cls.bases or cls.dataclass or any(c.dataclass for c in self.pkg.mro(cls)):
            flds = self.pkg.fields(cls)
            vals = dict(zip([f[0] for f in flds], a))
            if any(x.op == "star" for x in a):
                vals = {}
                x = a[0].args[0]
                for j, f in enumerate(flds):
                    vals[f[0]] = sel(x, num(j))
            vals.update({k: v for k, v in kw.items() if k != "**"})
            for f, an, d, c in flds:
                if f not in vals and "**" in kw:
                    dv = None
                    vals[f] = kwget(kw["**"], string(f))
                elif f not in vals:
                    vals[f] = self.field_default(d, c, st, e)
                v = vals[f]
                if v.op == "obj" and self.objs[v].etype is None and self.objs[v].kind == "list":
                    ty = self.ann_type(an, c.mod)
                    if ty and isinstance(ty, tuple) and ty[0] == "list":
                        self.objs[v].etype = ty[1]
                self.write(st, o, string(f), v, e, quiet=True)
            post = self.pkg.method(cls, "__post_init__")
            if post is not None:
                self.call_func(post, [o], {}, st, e)
            return o
        return o

    def field_default(self, d, c, st, e):
        if d is None:
            return mk("unk", "missing field", 0, 0, c.name)
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
            for k in d.keywords:
                if k.arg == "default":
                    return self.const_eval(k.value, c.mod)
                if k.arg == "default_factory":
                    fr_ = Func(c.mod, _lam(k.value)) if isinstance(k.value, ast.Lambda) else None
                    if fr_ is not None:
                        # evaluate in the class module
                        self.stack.append(fr_)
                        try:
                            return self.expr(k.value.body, State({}, st.heap, st.pc))
                        finally:
                            self.stack.pop()
                    nm = ast.unparse(k.value)
                    if nm in ("list",):
                        return self.alloc("list", e, content=seq((), "list"))
                    if nm in ("dict",):
                        return self.alloc("dict", e, content=mk("emptydict"))
                    r = self.pkg.resolve(c.mod, nm)
                    if r and r[0] == "cls":
                        return self.instantiate(r[1], [], {}, st, e)
                    if r and r[0] == "func":
                        return self.call_func(r[1], [], {}, st, e)
            return mk("unk", "default factory", 0, 0, c.name)
        v = self.const_eval(d, c.mod)
        return v

    def call_attr(self, b, attr, e, st):
        if b.op == "ext":
            return self.call_ext(b.args[0] + "." + attr, e, st)
        if b.op == "mod":
            fv = self.getattr(st, b, attr, e)
            return self.call_value(fv, e, st)
        if b.op == "super" or (b.op == "call" and b.args[0] == "super"):
            return self.unknown("super", e)
        if b.op == "phi":
            ty1, ty2 = self.type_of(b.args[1]), self.type_of(b.args[2])
            if b.args[1].op == "none":
                return self.call_attr(b.args[2], attr, e, st)
            if b.args[2].op == "none":
                return self.call_attr(b.args[1], attr, e, st)
        if b.op == "supercls":
            m = None
            for c in self.pkg.mro(self.types[b][1])[1:]:
                if attr in c.methods:
                    m = c.methods[attr]
                    break
            a, kw = self.args(e, st)
            if m is None:
                return NONE
            return self.call_func(m, [b.args[1]] + a, kw, st, e)
        ty = self.type_of(b)
        if ty and isinstance(ty, tuple) and ty[0] == "cls":
            m = self.pkg.method(ty[1], attr)
            if m is not None:
                a, kw = self.args(e, st)
                if m.static:
                    return self.call_func(m, a, kw, st, e)
                if m.classm:
                    c = b if b.op == "cls" else self.wrap(("cls", ty[1]))
                    return self.call_func(m, [c] + a, kw, st, e)
                if b.op == "cls":
                    return self.call_func(m, a, kw, st, e)
                return self.call_func(m, [b] + a, kw, st, e)
        if ty is None and "_" in attr and not attr.startswith("_") and b.op in ("sym", "sel", "mu", "muout", "phi", "call"):
            own = self.uniquemethods().get(attr)
            if own is not None and not own.static and not own.classm:
                a, kw = self.args(e, st)
                return self.call_func(own, [b] + a, kw, st, e)
        if b.op == "cls" and attr in ("__new__",):
            return self.alloc("inst", e, cls=self.types[b][1])
        return self.call_method(b, attr, e, st, ty)

    def call_method(self, b, attr, e, st, ty):
        from .externs import method
        return method(self, b, attr, e, st, ty)

    def call_builtin(self, nm, e, st):
        from .externs import builtin
        return builtin(self, nm, e, st)

    def call_ext(self, nm, e, st):
        from .externs import ext
        return ext(self, nm, e, st)


class Frame:
    def __init__(self):
        self.rets, self.brk, self.cont, self.tries = [], [], [], []


def _lam(e):
    return e


def _scalar(v):
    return v.op in ("num", "inf", "nan", "bool", "none")


def _assigned(body):
    out = set()
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(getattr(x, "ctx", None), ast.Store):
                # a value mutated through a name may be turned into an object
                y = x
                while isinstance(y, (ast.Subscript, ast.Attribute)):
                    y = y.value
                if isinstance(y, ast.Name):
                    out.add(y.id)
    return out


def _assigned_t(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def _roots(b):
    return b


def _phibases(b):
    if b.op == "phi":
        yield from _phibases(b.args[1])
        yield from _phibases(b.args[2])
    else:
        yield b


def mentions_any(t, mp):
    return any(x in mp for x in walk(t))


def _samefam(a, b):
    while a.op == "sel" and b.op == "sel":
        if a.args[0] is b.args[0]:
            return True
        a, b = a.args[0], b.args[0]
    return False


def _plain(b, idx):
    return b.op == "sel" and b.args[1] is idx
