"""C27: compiled routines call only what the compiler supports."""
import ast
import builtins
import json
import os

from ..rulekit import *

TECHNIQUE = ("syntax-tree and call-graph query with name resolution: every name, call, keyword and statement of each compiled routine, and every "
             "call of a compiled routine with a declared signature, is checked against the table of what the installed compiler supports; kinds "
             "(scalar, array, list, tuple) of local variables by a small type inference")
ASSUMPTIONS = ["the table of supported functions (sa/spec/compiled.json) was taken from the registries of the installed numba 0.68"]
TAB = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "compiled.json")))
JIT = ("numba.njit", "numba.jit", "numba.vectorize", "numba.guvectorize", "numba.core.decorators.njit", "numba.core.decorators.jit")
AXIS = {"norm": ("axis", "keepdims"), "mean": ("axis", "keepdims"), "max": ("axis", "keepdims"), "min": ("axis", "keepdims"), "amax": ("axis",),
        "amin": ("axis",), "all": ("axis", "keepdims"), "any": ("axis", "keepdims"), "std": ("axis",), "var": ("axis",), "prod": ("axis",),
        "median": ("axis",), "sort": ("axis",), "array": ("copy", "order", "ndmin", "subok"), "sum": ("keepdims", "where", "initial"),
        "cross": ("axis", "axisa", "axisb", "axisc")}
NOLIST = {"dot", "norm", "sum", "sqrt", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "abs", "max", "min", "mean", "vstack", "hstack",
          "concatenate", "stack", "exp", "log", "square", "zeros", "ones", "empty", "vdot", "prod"}
SEQFN = {"vstack", "hstack", "concatenate", "stack"}
UFUNC = {"sqrt", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "exp", "log", "abs", "square", "floor", "ceil", "arctan2", "sign"}
SCALARS = {"int32", "int64", "float64", "float32", "boolean", "intp", "uint8"}
NUM = ("num",)
UNK = None


def check(ctx):
    ctx.rule("Every function handed to the compiler (decorated, or wrapped at module level) uses only supported statements, calls only "
             "compiled functions of the package, supported library functions and builtins with supported keywords, reads only globals the "
             "compiler can type, and merges values of one kind; every call of a compiled function passes as many arguments as it takes, no "
             "objects of package classes and, where the signature is declared, no lists, tuples, integer arrays or strided views.")
    pkg = ctx.pkg
    jitted = {}
    for m in pkg.mods.values():
        if m.name.startswith("spec_"):
            continue
        for f in list(m.funcs.values()) + [g for c in m.classes.values() for g in c.methods.values()]:
            d = decorator(pkg, f)
            if d is not None:
                jitted[f] = d
        for nm, v in m.consts.items():
            # f = njit(f)
            if isinstance(v, ast.Call) and target(pkg, m, v.func) in JIT and v.args and isinstance(v.args[-1], ast.Name):
                r = pkg.resolve(m, v.args[-1].id)
                if r and r[0] == "func":
                    jitted.setdefault(r[1], v)
                    ALIAS[(m.name, nm)] = r[1]
    if not jitted:
        ctx.unk("anchor", "package", "no compiled routine found")
    for f, d in jitted.items():
        ctx.analysed.add(f.mod.name + "." + f.qual)
        Body(ctx, f, d, jitted).check()
    for f in pkg.all_funcs():
        if f not in jitted and not f.mod.name.startswith("spec_"):
            Caller(ctx, f, jitted).check()


ALIAS = {}


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + "." + n.attr if b else None
    return None


def target(pkg, mod, n):
    """dotted name of an external thing"""
    d = dotted(n)
    if d is None:
        return None
    h, _, t = d.partition(".")
    r = pkg.resolve(mod, h)
    if r and r[0] == "ext":
        x = r[1] + ("." + t if t else "")
        return x.replace("numpy.core.", "numpy.")
    return None


def decorator(pkg, f):
    if isinstance(f.node, ast.Lambda):
        return None
    for d in f.node.decorator_list:
        c = d.func if isinstance(d, ast.Call) else d
        if target(pkg, f.mod, c) in JIT:
            if isinstance(d, ast.Call) and any(k.arg in ("forceobj",) and ast.unparse(k.value) == "True" for k in d.keywords):
                return None
            if target(pkg, f.mod, c).endswith(".jit") and isinstance(d, ast.Call) and any(
                    k.arg == "nopython" and ast.unparse(k.value) == "False" for k in d.keywords):
                return None
            return d
    return None


def signature(d):
    """declared argument types: list of texts, or None"""
    if not isinstance(d, ast.Call) or not d.args:
        return None
    s = d.args[0]
    try:
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            s = ast.parse(s.value, mode="eval").body
        if isinstance(s, ast.List) and len(s.elts) == 1:
            s = s.elts[0]
        if isinstance(s, ast.Tuple):
            return [ast.unparse(a).replace("numba.", "").replace(" ", "") for a in s.elts]
        if isinstance(s, ast.Call):
            return [ast.unparse(a).replace("numba.", "").replace(" ", "") for a in s.args]
    except SyntaxError:
        pass
    return None


def sigkind(t):
    if t in SCALARS:
        return NUM
    if "[" in t:
        return ("arr", t.split("[")[0], t.split("[", 1)[1].count(":") - t.count("::1"))
    return UNK


class Kinds:
    """kinds of expressions from the syntax: ('num',) ('arr', dtype, dims) ('list', kind) ('tup', n) ('str',) ('none',) ('obj', class)"""

    def __init__(self, ctx, f, jitted):
        self.ctx, self.pkg, self.f, self.mod, self.jitted = ctx, ctx.pkg, f, f.mod, jitted
        self.env = {}
        self.depth = 0

    def resolve(self, name):
        if (self.mod.name, name) in ALIAS:
            return ("func", ALIAS[(self.mod.name, name)])
        r = self.pkg.resolve(self.mod, name)
        if r and r[0] == "const" and isinstance(r[2], ast.Name) and self.depth < 5:
            self.depth += 1
            r = self.pkg.resolve(r[1], r[2].id) or r
            self.depth -= 1
        return r

    def callee(self, n):
        """package function called, or None"""
        if isinstance(n.func, ast.Name) and n.func.id not in self.env:
            r = self.resolve(n.func.id)
        elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id not in self.env:
            r = self.resolve(n.func.value.id)
            r = self.pkg.resolve(r[1], n.func.attr) if r and r[0] == "mod" else None
        else:
            return None
        return r if r and r[0] in ("func", "cls") else None

    def npname(self, fn):
        t = target(self.pkg, self.mod, fn) if not (isinstance(fn, ast.Name) and fn.id in self.env) else None
        return t

    def kind(self, n):
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool) or isinstance(v, (int, float)):
                return NUM
            return ("str",) if isinstance(v, str) else ("none",) if v is None else UNK
        if isinstance(n, ast.Name):
            return self.env.get(n.id)
        if isinstance(n, ast.Tuple):
            return ("tup", len(n.elts)) if not any(isinstance(e, ast.Starred) for e in n.elts) else UNK
        if isinstance(n, ast.List):
            ks = {self.kind(e) for e in n.elts}
            return ("list", ks.pop() if len(ks) == 1 else None)
        if isinstance(n, ast.ListComp):
            return ("list", None)
        if isinstance(n, ast.UnaryOp):
            k = self.kind(n.operand)
            return k if k == NUM or k and k[0] == "arr" else UNK
        if isinstance(n, ast.BinOp):
            a, b = self.kind(n.left), self.kind(n.right)
            if isinstance(n.op, ast.MatMult):
                return UNK
            if a == NUM and b == NUM:
                return NUM
            if a and b and "arr" in (a[0], b[0]) and {a[0], b[0]} <= {"arr", "num"}:
                x = a if a[0] == "arr" else b
                nd = max([k[2] for k in (a, b) if k[0] == "arr" and k[2] is not None] or [0]) or None
                if any(k[0] == "arr" and k[2] is None for k in (a, b)):
                    nd = None
                dt = x[1] if a[0] != b[0] and x[1] == "float64" else "float64" if a[0] == b[0] and a[1] == b[1] == "float64" else \
                    "float64" if isinstance(n.op, ast.Div) else None
                return ("arr", dt, nd)
            if a and a[0] == "list" and b == NUM and isinstance(n.op, ast.Mult):
                return a
            return UNK
        if isinstance(n, ast.Compare) or isinstance(n, ast.BoolOp):
            return UNK
        if isinstance(n, ast.Attribute):
            return self.attr(n)
        if isinstance(n, ast.Subscript):
            return self.item(n)
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, ast.JoinedStr):
            return ("str",)
        if isinstance(n, ast.IfExp):
            a, b = self.kind(n.body), self.kind(n.orelse)
            return a if a == b else UNK
        return UNK

    def attr(self, n):
        b = self.kind(n.value)
        if b and b[0] == "arr" and n.attr == "T":
            return ("arr", b[1], b[2], "strided") if b[2] == 2 else b
        if b and b[0] == "obj":
            c = b[1]
            a, _ = self.pkg.field_ann(c, n.attr)
            if a is not None:
                return self.annkind(a, c.mod)
        return UNK

    def annkind(self, a, mod):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return UNK
        t = ast.unparse(a)
        if t in ("int", "float", "bool"):
            return NUM
        d = dotted(a)
        if d:
            if "." not in d:
                r = self.pkg.resolve(mod, d)
                if r and r[0] == "cls":
                    if any(b.split(".")[-1] in ("NamedTuple", "tuple", "Enum", "IntEnum", "int", "float") for c in self.pkg.mro(r[1]) for b in c.bases):
                        return UNK
                    if any("jitclass" in x for x in r[1].decs):
                        return UNK
                    return ("obj", r[1])
        return UNK

    def item(self, n):
        b = self.kind(n.value)
        if not b:
            return UNK
        if b[0] == "arr" and b[2] is not None:
            ix = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            nd, strided = b[2], False
            for i, s in enumerate(ix):
                if isinstance(s, ast.Slice):
                    if s.step is not None:
                        strided = True
                    continue
                if isinstance(s, ast.Constant) and isinstance(s.value, int) or self.kind(s) == NUM:
                    nd -= 1
                    if any(isinstance(x, ast.Slice) for x in ix[:i]):
                        strided = True
                else:
                    return UNK
            if nd == 0:
                return NUM
            if nd < 0:
                return UNK
            return ("arr", b[1], nd) + (("strided",) if strided or b[3:] else ())
        if b[0] == "list":
            if isinstance(n.slice, ast.Slice):
                return b
            return b[1]
        return UNK

    def call(self, n):
        t = self.npname(n.func)
        if t and t.startswith("numpy."):
            nm = t.split(".")[-1]
            if nm in ("array", "asarray"):
                a = n.args[0] if n.args else None
                dt = [k.value for k in n.keywords if k.arg == "dtype"] + n.args[1:2]
                if isinstance(a, ast.List):
                    nd = 2 if a.elts and all(isinstance(e, (ast.List, ast.Tuple)) for e in a.elts) else 1 if all(
                        self.kind(e) == NUM for e in a.elts) else None
                    flat = [e for x in a.elts for e in (x.elts if isinstance(x, (ast.List, ast.Tuple)) else [x])]
                    if dt:
                        d = dtypename(dt[0])
                    elif flat and all(intlit(e) for e in flat):
                        d = "int64"
                    elif any(isinstance(e, ast.Constant) and isinstance(e.value, float) for e in flat):
                        d = "float64"
                    else:
                        d = None
                    return ("arr", d, nd)
                return ("arr", None, None) if a is not None and not n.keywords else UNK
            if nm in ("zeros", "ones", "empty", "full"):
                a = n.args[0] if n.args else None
                dt = [k.value for k in n.keywords if k.arg == "dtype"] + n.args[(2 if nm == "full" else 1):][:1]
                d = dtypename(dt[0]) if dt else "float64" if nm != "full" else None
                k = self.kind(a) if a is not None else None
                nd = 1 if k == NUM else k[1] if k and k[0] == "tup" else None
                return ("arr", d, nd)
            if nm in ("zeros_like", "empty_like", "ones_like", "copy"):
                k = self.kind(n.args[0]) if n.args else None
                return k if k and k[0] == "arr" and not n.keywords else UNK
            if nm in ("norm", "dot", "sum", "float64", "int32", "int64", "max", "min", "hypot", "arctan2", "mean") or nm in UFUNC:
                ks = [self.kind(a) for a in n.args]
                if nm in UFUNC or nm in ("hypot", "arctan2"):
                    return NUM if ks and all(k == NUM for k in ks) else ks[0] if len(ks) == 1 and ks[0] and ks[0][0] == "arr" else UNK
                if nm == "norm" and not n.keywords:
                    return NUM
                if nm == "dot" and len(ks) == 2 and all(k and k[0] == "arr" and k[2] == 1 for k in ks):
                    return NUM
                if nm in ("sum", "mean", "max", "min") and len(n.args) == 1 and not n.keywords:
                    return NUM
            if nm == "cross":
                return ("arr", "float64", 1)
            return UNK
        if isinstance(n.func, ast.Name) and n.func.id not in self.env and self.resolve(n.func.id) is None:
            if n.func.id in ("float", "int", "len", "abs", "round", "ord", "bool"):
                return NUM if n.func.id != "abs" else self.kind(n.args[0]) if n.args else UNK
            if n.func.id in ("max", "min") and len(n.args) > 1 and all(self.kind(a) == NUM for a in n.args):
                return NUM
            if n.func.id in ("list", "sorted"):
                return ("list", None)
            return UNK
        if isinstance(n.func, ast.Attribute):
            b = self.kind(n.func.value)
            if b and b[0] == "arr":
                if n.func.attr == "copy":
                    return b[:3]
                if n.func.attr == "astype" and n.args:
                    return ("arr", dtypename(n.args[0]), b[2])
                if n.func.attr == "tolist":
                    return ("list", None)
        r = self.callee(n)
        if r and r[0] == "func":
            d = self.jitted.get(r[1])
            if isinstance(d, ast.Call) and d.args:
                s = d.args[0]
                try:
                    if isinstance(s, ast.Constant):
                        s = ast.parse(s.value, mode="eval").body
                    if isinstance(s, ast.Call):
                        return sigkind(ast.unparse(s.func).replace("numba.", "").replace(" ", ""))
                except (SyntaxError, TypeError):
                    pass
            return UNK
        if r and r[0] == "cls":
            return self.annkind(n.func, self.mod) if isinstance(n.func, ast.Name) else UNK
        return UNK


def intlit(e):
    if isinstance(e, ast.UnaryOp):
        e = e.operand
    return isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool)


def dtypename(n):
    t = ast.unparse(n).split(".")[-1].strip("'\"")
    return {"float": "float64", "float_": "float64", "double": "float64", "int": "int64", "int_": "int64"}.get(t, t if t in (
        "float64", "float32", "int32", "int64", "uint8", "bool") else None)


def clash(a, b):
    """a value can not be of both kinds"""
    if not a or not b or a == b:
        return False
    if "none" in (a[0], b[0]) or "obj" in (a[0], b[0]):
        return False
    if a[0] != b[0]:
        return True
    if a[0] == "tup":
        return a[1] != b[1]
    if a[0] == "arr":
        return a[2] is not None and b[2] is not None and a[2] != b[2]
    return False


def callcheck(self, n, f, wh, inside):
    """arguments of a call of a compiled function"""
    ctx, d = self.ctx, self.jitted[f]
    sig = signature(d)
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        if inside:
            return
        return
    given = list(zip(f.params, n.args)) + [(k.arg, k.value) for k in n.keywords]
    m = "call of the compiled %s" % f.name
    if len(n.args) > len(f.params) or any(k not in f.params for k, _ in given):
        return ctx.bad("arguments", wh, m + " passes arguments it does not take")
    miss = [p for p in f.params if p not in dict(given) and p not in f.defaults]
    if miss:
        return ctx.bad("arguments", wh, m + " leaves out %s" % ", ".join(miss))
    if sig and len(sig) == len(f.params) and len(given) < len(sig):
        return ctx.bad("arguments", wh, m + ": its declared signature needs all %d arguments" % len(sig))
    for p, a in given:
        k = self.kind(a)
        if not k:
            continue
        t = sig[f.params.index(p)] if sig and len(sig) == len(f.params) else None
        if k[0] == "obj":
            ctx.bad("arguments", wh, "%s passes an object of class %s, which the compiler does not know" % (m, k[1].name))
            return
        if t is None:
            if k[0] == "list" and needs_array(self, f, p):
                ctx.bad("arguments", wh, "%s passes a list for %s, which is used as an array" % (m, p))
                return
            continue
        want = sigkind(t)
        if want == NUM and k[0] in ("list", "tup", "str", "none") or want == NUM and k[0] == "arr" and k[2]:
            return ctx.bad("arguments", wh, "%s passes a %s for %s (%s)" % (m, k[0], p, t))
        if want and want[0] == "arr":
            if k[0] != "arr":
                return ctx.bad("arguments", wh, "%s passes a %s for %s (%s)" % (m, {"num": "number", "tup": "tuple"}.get(k[0], k[0]), p, t))
            if k[1] and k[1] != want[1]:
                return ctx.bad("arguments", wh, "%s passes an array of %s for %s (%s)" % (m, k[1], p, t))
            if k[2] and k[2] != want[2]:
                return ctx.bad("arguments", wh, "%s passes an array of %d dimensions for %s (%s)" % (m, k[2], p, t))
            if "::1" in t and "strided" in k[3:]:
                return ctx.bad("arguments", wh, "%s passes a strided view for %s (%s)" % (m, p, t))
    ctx.hold("arguments", wh, m)


def needs_array(self, f, p):
    for n in ast.walk(f.node):
        if isinstance(n, ast.BinOp) and any(isinstance(x, ast.Name) and x.id == p for x in (n.left, n.right)):
            return True
        if isinstance(n, ast.Call) and any(isinstance(x, ast.Name) and x.id == p for x in n.args):
            t = target(self.pkg, f.mod, n.func)
            if t and t.startswith("numpy.") and t.split(".")[-1] in NOLIST:
                return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in ("shape", "dot", "T", "sum", "reshape"):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p and isinstance(n.slice, ast.Tuple):
            return True
    return False


class Caller(Kinds):
    """calls of compiled functions from interpreted code; a name has a kind when all its bindings have that kind"""

    def check(self):
        f = self.f
        if isinstance(f.node, ast.Lambda):
            return
        calls = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                r = self.callee(n)
                if r and r[0] == "func" and r[1] in self.jitted:
                    calls.append((n, r[1]))
        if not calls:
            return
        for p, a in f.ann.items():
            k = self.annkind(a, f.mod)
            if k and k[0] == "obj":
                self.env[p] = k
        if f.cls is not None and not f.static and f.params:
            k = self.annkind(ast.Name(id=f.cls.name, ctx=ast.Load()), f.mod)
            if k and not f.classm:
                self.env[f.params[0]] = k
        bind = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        bind.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                bind.setdefault(x.id, []).append(None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        bind.setdefault(x.id, []).append(None)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
                if isinstance(n.target, ast.Name):
                    bind.setdefault(n.target.id, []).append(n.value if isinstance(n, ast.AnnAssign) else None)
            elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                bind.setdefault(n.optional_vars.id, []).append(None)
        for nm in bind:
            if nm in f.params:
                self.env.pop(nm, None)
        for _ in range(3):
            for nm, vs in bind.items():
                if nm in f.params:
                    continue
                ks = {self.kind(v) if v is not None else None for v in vs}
                k = ks.pop() if len(ks) == 1 else None
                if k:
                    self.env[nm] = k
                else:
                    self.env.setdefault(nm, None)
                    self.env[nm] = None
        for n, g in calls:
            callcheck(self, n, g, where(f, n), False)


class Body(Kinds):
    def __init__(self, ctx, f, d, jitted):
        super().__init__(ctx, f, jitted)
        self.d = d
        self.bads = 0
        self.rets = []

    def bad(self, rule, n, msg):
        self.bads += 1
        self.ctx.bad(rule, where(self.f, n), "compiled %s: %s" % (self.f.name, msg))

    def check(self):
        f = self.f
        sig = signature(self.d)
        if sig is not None and len(sig) != len(f.params):
            self.bad("signature", f.node, "declares %d argument types for %d arguments" % (len(sig), len(f.params)))
        for i, p in enumerate(f.params):
            self.env[p] = UNK
            if sig and len(sig) == len(f.params):
                self.env[p] = sigkind(sig[i])
            elif p in f.ann:
                t = ast.unparse(f.ann[p])
                self.env[p] = NUM if t in ("float", "int", "bool") else ("arr", None, None) if t in ("np.ndarray", "ndarray", "numpy.ndarray") else UNK
        if f.kwarg:
            self.bad("statement", f.node, "takes arbitrary keyword arguments")
        self.locals = set(f.params) | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.locals |= {x.name for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node}
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not f.node:
                self.locals |= {a.arg for a in x.args.args}
        for x in self.locals:
            self.env.setdefault(x, UNK)
        body = f.node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            for n in ast.walk(s):
                self.node(n)
        self.block(body)
        for i, (k, n) in enumerate(self.rets):
            for k2, n2 in self.rets[:i]:
                if clash(k, k2):
                    self.bad("merge", n, "returns values of different kinds (%s and %s)" % (name(k2), name(k)))
                    break
        if sig is not None and isinstance(self.d.args[0], ast.Call):
            want = sigkind(ast.unparse(self.d.args[0].func).replace("numba.", "").replace(" ", ""))
            for k, n in self.rets:
                if clash(k, want) or k and want and k[0] == "none":
                    self.bad("merge", n, "returns %s where the signature declares %s" % (name(k), ast.unparse(self.d.args[0].func)))
        if not self.bads:
            self.ctx.hold("compiled", where(f), "%s uses only what can be compiled" % f.name)

    # ---- syntax
    def node(self, n):
        if isinstance(n, ast.Call):
            self.callnode(n)
        elif isinstance(n, ast.With):
            if not any("objmode" in ast.unparse(i.context_expr) for i in n.items):
                self.bad("statement", n, "uses a with statement")
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            self.bad("statement", n, "imports a module")
        elif isinstance(n, ast.Global):
            self.bad("statement", n, "assigns a global variable")
        elif isinstance(n, (ast.ClassDef, ast.AsyncFunctionDef, ast.Await, ast.YieldFrom, ast.AsyncFor, ast.AsyncWith)):
            self.bad("statement", n, "uses %s" % type(n).__name__)
        elif isinstance(n, ast.ExceptHandler):
            if n.type is not None and ast.unparse(n.type) not in ("Exception",):
                self.bad("statement", n, "catches %s; only all exceptions can be caught" % ast.unparse(n.type))
            elif n.name:
                self.bad("statement", n, "names a caught exception")
        elif isinstance(n, ast.FormattedValue) and n.format_spec is not None:
            self.bad("statement", n, "formats a number with a format specification")
        elif isinstance(n, (ast.SetComp, ast.GeneratorExp)):
            self.bad("statement", n, "uses a %s" % ("set comprehension" if isinstance(n, ast.SetComp) else "generator expression"))
        elif isinstance(n, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Starred) for e in t.elts) for t in n.targets):
            self.bad("statement", n, "unpacks into a starred name")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            self.bad("statement", n, "formats a string with %")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in self.locals:
            self.globalname(n)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id not in self.locals:
            t = target(self.pkg, self.mod, n)
            if t:
                self.external(n, t)

    def external(self, n, t):
        parts = t.split(".")
        if parts[0] == "numpy":
            if len(parts) == 2:
                if parts[1] in ("linalg", "random", "fft", "pi", "e", "inf", "nan", "newaxis", "euler_gamma", "bool_", "bool"):
                    return
                ok = parts[1] in TAB["numpy"]
            elif len(parts) == 3 and ".".join(parts[:2]) in TAB:
                ok = parts[2] in TAB[".".join(parts[:2])]
            else:
                return
            if not ok:
                self.bad("library", n, "uses %s, which the compiler does not support" % t)
        elif parts[0] == "math":
            if len(parts) == 2 and parts[1] not in TAB["math"] and parts[1] not in ("pi", "e", "inf", "nan", "tau"):
                self.bad("library", n, "uses %s, which the compiler does not support" % t)
        elif parts[0] in ("scipy", "copy", "os", "sys", "itertools", "functools", "collections", "pathlib", "re", "json", "yaml", "time", "warnings"):
            self.bad("library", n, "uses %s, which the compiler does not support" % t)

    def globalname(self, n):
        r = self.resolve(n.id)
        if r is None:
            return
        if r[0] == "ext":
            if "." in r[1]:
                self.external(n, r[1])
        elif r[0] == "const":
            v = r[2]
            if isinstance(v, (ast.Dict, ast.Set, ast.DictComp)):
                self.bad("global", n, "reads the global %s, which the compiler can not type" % n.id)
            elif isinstance(v, (ast.List, ast.ListComp)):
                self.bad("global", n, "reads the global list %s, which the compiler can not type" % n.id)
            elif isinstance(v, ast.Call):
                d = dotted(v.func)
                c = self.pkg.resolve(r[1], d) if d and "." not in d else None
                if c and c[0] == "cls" and self.annkind(v.func, r[1]):
                    self.bad("global", n, "reads the global %s, an object of class %s" % (n.id, c[1].name))
                elif d in ("dict", "set", "list", "defaultdict"):
                    self.bad("global", n, "reads the global %s, which the compiler can not type" % n.id)
        elif r[0] == "cls":
            pass
        elif r[0] == "func" and r[1] not in self.jitted:
            self.bad("callee", n, "refers to %s, which is not compiled" % n.id)

    def callnode(self, n):
        fn = n.func
        r = self.callee(n)
        if r:
            if r[0] == "func":
                if r[1] in self.jitted:
                    # checked in order of execution, with the kinds known there
                    pass
                elif not isinstance(fn, ast.Name):
                    self.bad("callee", n, "calls %s, which is not compiled" % r[1].name)
            elif self.annkind(ast.Name(id=r[1].name, ctx=ast.Load()), r[1].mod):
                self.bad("callee", n, "creates an object of class %s" % r[1].name)
            return
        if any(isinstance(a, ast.Starred) for a in n.args) and not isinstance(fn, ast.Attribute):
            pass
        if isinstance(fn, ast.Name) and fn.id not in self.locals and self.resolve(fn.id) is None:
            if hasattr(builtins, fn.id) and fn.id not in TAB["builtins"] and fn.id[0].islower():
                self.bad("callee", n, "calls the builtin %s, which the compiler does not support" % fn.id)
            return
        t = self.npname(fn)
        if t and t.startswith("numpy."):
            nm = t.split(".")[-1]
            for k in n.keywords:
                if k.arg in AXIS.get(nm, ()):
                    self.bad("keyword", n, "%s with the argument %s, which the compiler does not support" % (t, k.arg))
                if k.arg == "dtype" and ast.unparse(k.value) in ("int", "bool") and nm in ("zeros", "ones", "empty", "array", "full") and ast.unparse(k.value) == "int":
                    self.bad("keyword", n, "%s with dtype=int, which the compiler does not support" % t)

    # ---- kinds in order of execution
    def block(self, body):
        for s in body:
            if self.stmt(s) == "end":
                return "end"
        return None

    def exprs(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                self.callkinds(x)
            elif isinstance(x, ast.IfExp):
                if clash(self.kind(x.body), self.kind(x.orelse)):
                    self.bad("merge", x, "chooses between values of different kinds (%s and %s)" % (name(self.kind(x.body)), name(self.kind(x.orelse))))
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                k = self.kind(x.value)
                if k and k[0] in ("arr", "list") and x.attr not in TAB["array" if k[0] == "arr" else "list"] and k[1:] != (None, None):
                    self.bad("library", x, "uses the attribute %s of %s" % (x.attr, name(k)))
                elif k and k[0] == "str" and x.attr == "format":
                    self.bad("statement", x, "formats a string")
            elif isinstance(x, ast.BinOp):
                a, b = self.kind(x.left), self.kind(x.right)
                if a and b and {a[0], b[0]} == {"list", "arr"} or a and b and {a[0], b[0]} in ({"str", "num"}, {"str", "arr"}):
                    self.bad("merge", x, "combines %s and %s" % (name(a), name(b)))

    def callkinds(self, n):
        r = self.callee(n)
        if r and r[0] == "func" and r[1] in self.jitted:
            return callcheck(self, n, r[1], where(self.f, n), True)
        ks = [self.kind(a) for a in n.args]
        t = self.npname(n.func)
        if t and t.startswith("numpy."):
            nm = t.split(".")[-1]
            if nm in NOLIST and ks and ks[0] and ks[0][0] == "list" or nm == "dot" and len(ks) > 1 and ks[1] and ks[1][0] == "list":
                self.bad("library", n, "passes a list to %s" % t)
            if nm == "array" and ks and ks[0] and (ks[0][0] == "arr" and ks[0] != ("arr", None, None) or ks[0][0] == "list" and ks[0][1] and ks[0][1][0] == "arr"):
                self.bad("library", n, "converts %s with np.array" % ("an array" if ks[0][0] == "arr" else "a list of arrays"))
        if isinstance(n.func, ast.Name) and n.func.id in ("float", "int", "abs") and n.func.id not in self.locals and ks and ks[0] and ks[0][0] in ("arr", "list", "tup"):
            if ks[0][0] != "arr" or ks[0][2]:
                self.bad("library", n, "applies %s to %s" % (n.func.id, name(ks[0])))
        if isinstance(n.func, ast.Attribute) and n.func.attr == "astype" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in ("int", "bool"):
            k = self.kind(n.func.value)
            if k and k[0] == "arr":
                self.bad("library", n, "converts an array with astype(%s)" % n.args[0].id)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("max", "min", "mean", "prod", "std", "var", "all", "any") and not t:
            k = self.kind(n.func.value)
            if k and k[0] == "arr" and (n.args or any(w.arg in ("axis", "keepdims") for w in n.keywords)):
                self.bad("keyword", n, "reduces an array along an axis with %s" % n.func.attr)

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return
            self.exprs(s.value)
            k = self.kind(s.value)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, ast.Name):
                    self.env[t.id] = k
                elif isinstance(t, (ast.Tuple, ast.List)):
                    vs = s.value.elts if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts) else None
                    ks = [self.kind(v) for v in vs] if vs else [None] * len(t.elts)
                    if k and k[0] == "tup" and k[1] != len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                        self.bad("merge", s, "unpacks a tuple of %d values into %d names" % (k[1], len(t.elts)))
                    for e, kk in zip(t.elts, ks):
                        if isinstance(e, ast.Name):
                            self.env[e.id] = kk
                else:
                    self.exprs(t)
        elif isinstance(s, ast.AugAssign):
            self.exprs(s.value)
            if isinstance(s.target, ast.Name):
                a, b = self.env.get(s.target.id), self.kind(s.value)
                if a and b and {a[0], b[0]} == {"list", "arr"}:
                    self.bad("merge", s, "combines %s and %s" % (name(a), name(b)))
                self.env[s.target.id] = NUM if a == NUM and b == NUM else a if a and a[0] == "arr" else None
        elif isinstance(s, ast.Expr):
            self.exprs(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.exprs(s.value)
                self.rets.append((self.kind(s.value), s))
            return "end"
        elif isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return "end"
        elif isinstance(s, ast.If):
            self.exprs(s.test)
            e0 = dict(self.env)
            a = self.block(s.body)
            e1, self.env = self.env, dict(e0)
            b = self.block(s.orelse)
            if a == "end" and b == "end":
                return "end"
            if a == "end":
                return
            if b == "end":
                self.env = e1
                return
            self.env = self.merge(e1, self.env, s)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.exprs(s.iter)
                it = s.iter
                k = None
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "prange"):
                    k = NUM
                for x in ast.walk(s.target):
                    if isinstance(x, ast.Name):
                        self.env[x.id] = k if x is s.target else None
            else:
                self.exprs(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            self.env = self.merge(e0, self.env, s)
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Assert):
            self.exprs(s.test)

    def merge(self, a, b, s):
        out = {}
        live = None
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if clash(x, y):
                if live is None:
                    end = max(getattr(q, "end_lineno", 0) or 0 for q in ast.walk(s) if hasattr(q, "end_lineno"))
                    live = {q.id for q in ast.walk(self.f.node) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load) and (
                        q.lineno > end or isinstance(s, (ast.For, ast.While)) and q.lineno >= s.lineno)}
                if k in live and self.used_merged(k, s):
                    self.bad("merge", s, "%s holds %s or %s depending on the path" % (k, name(x), name(y)))
            out[k] = x if x == y else None
        return out

    def used_merged(self, k, s):
        """the merged value can be read: the next access of the name after the statement is a read"""
        end = max(getattr(q, "end_lineno", 0) or 0 for q in ast.walk(s) if hasattr(q, "end_lineno"))
        acc = sorted(((q.lineno, isinstance(q.ctx, ast.Store)) for q in ast.walk(self.f.node) if isinstance(q, ast.Name) and q.id == k and q.lineno > end))
        if acc and not acc[0][1]:
            return True
        if acc and any(not st and ln == acc[0][0] for ln, st in acc):
            return True
        if isinstance(s, (ast.For, ast.While)):
            acc = sorted(((q.lineno, isinstance(q.ctx, ast.Store)) for q in ast.walk(s) if isinstance(q, ast.Name) and q.id == k))
            return bool(acc) and not acc[0][1]
        return False


def name(k):
    if not k:
        return "an unknown value"
    return {"num": "a number", "arr": "an array", "list": "a list", "tup": "a tuple", "str": "a string", "none": "None", "obj": "an object"}[k[0]] + (
        " of %s" % k[1] if k[0] == "tup" else "")
