"""Syntax-level model of the package: modules, functions, classes, imports."""

import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "openptv_python"


class Func:
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.qual = (cls.name + "." if cls else "") + self.name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        for k, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[k] = d
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation}
        decs = [] if isinstance(node, ast.Lambda) else node.decorator_list
        self.decs = [ast.unparse(d) for d in decs]
        self.static = "staticmethod" in self.decs
        self.classm = "classmethod" in self.decs
        self.prop = "property" in self.decs

    @property
    def jitted(self):
        return any(d.split("(")[0].split(".")[-1] in ("njit", "jit", "vectorize", "guvectorize") for d in self.decs)

    def __repr__(self):
        return "<%s:%s>" % (self.mod.name, self.qual)


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.fields, self.attrs = {}, [], {}
        self.bases = [ast.unparse(b) for b in node.bases]
        self.decs = [ast.unparse(d) for d in node.decorator_list]
        self.dataclass = any(d.split("(")[0].split(".")[-1] == "dataclass" for d in self.decs)
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[n.name] = Func(mod, n, self)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.fields.append((n.target.id, n.annotation, n.value))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
        self.ann = {f: a for f, a, _ in self.fields}

    def __repr__(self):
        return "<class %s>" % self.name


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src)
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self.stmts = []
        for n in self._top(self.tree.body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = Func(self, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Cls(self, n)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    if isinstance(t, ast.Name) and n.value is not None:
                        self.consts[t.id] = n.value
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                self.consts[a.id] = b
            elif isinstance(n, ast.ImportFrom):
                m = n.module or ""
                if n.level or m.startswith(PKG):
                    m = m[len(PKG):].lstrip(".") if m.startswith(PKG) else m
                    for a in n.names:
                        self.imports[a.asname or a.name] = ("pkg", m, a.name)
                else:
                    for a in n.names:
                        self.imports[a.asname or a.name] = ("ext", m + "." + a.name, None)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    nm = a.asname or a.name.split(".")[0]
                    if a.name.startswith(PKG + "."):
                        self.imports[nm] = ("mod", a.name[len(PKG) + 1:], None)
                    else:
                        self.imports[nm] = ("ext", a.name if a.asname else a.name.split(".")[0], None)

    @staticmethod
    def _top(body):
        for n in body:
            yield n
            if isinstance(n, ast.If):
                yield from Module._top(n.body)
                yield from Module._top(n.orelse)
            elif isinstance(n, ast.Try):
                yield from Module._top(n.body)
                for h in n.handlers:
                    yield from Module._top(h.body)


class Package:
    def __init__(self, repo=None):
        self.root = os.path.join(repo or REPO, PKG)
        self.mods = {}
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    with open(p, encoding="utf-8") as fp:
                        self.mods[rel] = Module(rel, os.path.relpath(p, repo or REPO), fp.read())

    def add_source(self, name, path):
        with open(path, encoding="utf-8") as fp:
            self.mods[name] = Module(name, path, fp.read())
        return self.mods[name]

    def resolve(self, mod, name, depth=0):
        """-> ('func',Func)|('cls',Cls)|('const',Module,expr)|('ext',dotted)|('mod',Module)|None"""
        if depth > 6:
            return None
        if name in mod.funcs:
            return ("func", mod.funcs[name])
        if name in mod.classes:
            return ("cls", mod.classes[name])
        if name in mod.consts:
            return ("const", mod, mod.consts[name])
        imp = mod.imports.get(name)
        if imp is None:
            if mod.name.startswith("spec_"):
                # reference definitions see every public name of the package
                for m in self.mods.values():
                    if name in m.funcs:
                        return ("func", m.funcs[name])
                    if name in m.classes:
                        return ("cls", m.classes[name])
                    if name in m.consts:
                        return ("const", m, m.consts[name])
            return None
        if imp[0] == "ext":
            return ("ext", imp[1])
        if imp[0] == "mod":
            m = self.mods.get(imp[1])
            return ("mod", m) if m else None
        _, m, n = imp
        if m in ("", None):
            if n in self.mods:
                return ("mod", self.mods[n])
            m = "__init__"
        tgt = self.mods.get(m)
        if tgt is None:
            return None
        r = self.resolve(tgt, n, depth + 1)
        if r is None and (m + "." + n) in self.mods:
            return ("mod", self.mods[m + "." + n])
        return r

    def func(self, modname, qual):
        """find a public function, also when it moved to another module"""
        m = self.mods.get(modname)
        if m:
            if "." in qual:
                c, f = qual.split(".")
                r = self.resolve(m, c)
                if r and r[0] == "cls":
                    g = self.method(r[1], f)
                    if g:
                        return g
            else:
                r = self.resolve(m, qual)
                if r and r[0] == "func":
                    return r[1]
        return None

    def cls(self, modname, name):
        m = self.mods.get(modname)
        if m:
            r = self.resolve(m, name)
            if r and r[0] == "cls":
                return r[1]
        return None

    def mro(self, cls, depth=0):
        out = [cls]
        if depth < 6:
            for b in cls.bases:
                r = self.resolve(cls.mod, b.split("[")[0])
                if r and r[0] == "cls":
                    out += self.mro(r[1], depth + 1)
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def fields(self, cls):
        """dataclass fields in order (base first): (name, annotation, default, cls)"""
        out = {}
        for c in reversed(self.mro(cls)):
            for f, a, d in c.fields:
                out[f] = (f, a, d, c)
        return list(out.values())

    def field_ann(self, cls, name):
        for c in self.mro(cls):
            if name in c.ann:
                return c.ann[name], c
        return None, None

    def all_funcs(self):
        for m in self.mods.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()

    def array_fields(self):
        """names of record fields that hold arrays: np.dtype([(name, type, shape), ...])"""
        if not hasattr(self, "_arrf"):
            yes, no = set(), set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "dtype" and n.args and isinstance(n.args[0], ast.List):
                        for e in n.args[0].elts:
                            if isinstance(e, ast.Tuple) and e.elts and isinstance(e.elts[0], ast.Constant):
                                (yes if len(e.elts) > 2 else no).add(e.elts[0].value)
            self._arrf = yes - no
        return self._arrf

    def record_fields(self, name):
        """field names of the records kept in attributes of a name, from the dtype of the module-level record they start as"""
        if not hasattr(self, "_recf"):
            self._recf = {}
            dts, recs = {}, {}
            for m in self.mods.values():
                for n in m.tree.body:
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                        t = n.targets[0].id
                        for c in ast.walk(n.value):
                            if isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] == "dtype" and c.args and isinstance(c.args[0], ast.List):
                                dts[t] = [e.elts[0].value for e in c.args[0].elts if isinstance(e, ast.Tuple) and e.elts and isinstance(e.elts[0], ast.Constant)]
                            if isinstance(c, ast.keyword) and c.arg == "dtype" and isinstance(c.value, ast.Name):
                                recs[t] = c.value.id
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
                            for c in ast.walk(n.value):
                                if nm and isinstance(c, ast.Name) and recs.get(c.id) in dts:
                                    self._recf.setdefault(nm, []).append(frozenset(dts[recs[c.id]]))
        r = self._recf.get(name)
        return r[0] if r and len(set(r)) == 1 else None
