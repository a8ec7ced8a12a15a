"""What routines do when a file is missing or can not be written: abstract execution of the syntax tree in which every operation on files may fail."""
import ast

from .rulekit import IOERR

DATA, FILE, WFILE, EMPTY, UNK = "<data>", "<file>", "<file for writing>", "<empty>", "<unknown>"
EXISTS = {"exists", "is_file", "isfile", "access"}
EXTIO = {"savetxt", "loadtxt", "genfromtxt", "imread", "imsave", "imwrite", "read_text", "write_text", "read_bytes", "write_bytes", "tofile", "fromfile"}
OK, SOFT, HARD = 0, 1, 2
MISSING = object()


class State:
    __slots__ = ("failed", "env", "site")

    def __init__(self, failed=OK, env=None, site=None):
        self.failed, self.env, self.site = failed, dict(env or {}), site

    def put(self, n, v):
        s = State(self.failed, self.env, self.site)
        s.env[n] = frozenset(v)
        return s

    def fail(self, level, site):
        return State(max(self.failed, level), self.env, site if self.failed < level else self.site)


def merge(sts):
    by = {}
    for s in sts:
        o = by.get(s.failed)
        if o is None:
            by[s.failed] = State(s.failed, s.env, s.site)
        else:
            for k in set(o.env) | set(s.env):
                o.env[k] = o.env.get(k, frozenset([UNK])) | s.env.get(k, frozenset([UNK]))
    return list(by.values())


class Out:
    """outcomes of a list of statements"""

    def __init__(self):
        self.fall, self.ret, self.exc, self.brk, self.cont = [], [], [], [], []

    def jumps(self, o):
        self.ret += o.ret
        self.exc += o.exc
        self.brk += o.brk
        self.cont += o.cont


class Summary:
    def __init__(self):
        self.io, self.raises, self.fail, self.ok, self.rets, self.after, self.sites, self.excs = False, False, frozenset(), frozenset(), [], [], set(), []


class Flow:
    def __init__(self, pkg):
        self.pkg, self.memo, self.busy = pkg, {}, set()
        self.funcs = []
        for m in pkg.mods.values():
            if m.name.startswith("spec_"):
                continue
            self.funcs += list(m.funcs.values())
            for c in m.classes.values():
                self.funcs += list(c.methods.values())
        self.direct = {f for f in self.funcs if any(isinstance(n, ast.Call) and (self.opname(n) or self.isexists(n)) for n in ast.walk(f.node))}
        self.io = set(self.direct)
        ch = True
        while ch:
            ch = False
            for f in self.funcs:
                if f not in self.io and any(isinstance(n, ast.Call) and self.callees(f, n, {}) for n in ast.walk(f.node)):
                    self.io.add(f)
                    ch = True

    # ---- calls
    @staticmethod
    def opname(n):
        """operation that opens, reads or writes a file by name"""
        f = n.func
        if isinstance(f, ast.Name):
            return f.id if f.id in {"open"} | EXTIO else None
        if isinstance(f, ast.Attribute):
            if f.attr in EXTIO:
                return f.attr
            if f.attr == "open" and not (isinstance(f.value, ast.Name) and f.value.id in ("os", "webbrowser")):
                return "open"
        return None

    @staticmethod
    def isexists(n):
        f = n.func
        return isinstance(f, ast.Attribute) and f.attr in EXISTS

    def callees(self, f, n, env):
        """package routines with file effects a call may go to"""
        fn = n.func
        na = len(n.args) + len(n.keywords)
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)

        def fits(g, skip):
            a = g.node.args
            mx = len(g.params) + len(g.kwonly) - skip
            mn = len(g.params) - len(a.defaults) - skip
            return star or g.vararg or g.kwarg or mn <= na <= mx
        if isinstance(fn, ast.Name):
            r = self.pkg.resolve(f.mod, fn.id)
            if r and r[0] == "func" and r[1] in self.io:
                return [r[1]]
            return []
        if not isinstance(fn, ast.Attribute):
            return []
        if isinstance(fn.value, ast.Name):
            v = env.get(fn.value.id)
            if v and v & {FILE, WFILE}:
                return []
            if fn.value.id in ("self", "cls") and f.cls is not None:
                g = self.pkg.method(f.cls, fn.attr)
                return [g] if g in self.io else []
            r = self.pkg.resolve(f.mod, fn.value.id) if fn.value.id not in f.params else None
            if r:
                if r[0] == "cls":
                    g = self.pkg.method(r[1], fn.attr)
                    return [g] if g in self.io else []
                if r[0] == "mod":
                    g = r[1].funcs.get(fn.attr)
                    return [g] if g in self.io else []
                if r[0] == "ext":
                    return []
        out = [g for g in self.io if g.cls is not None and g.name == fn.attr and fits(g, 0 if g.static else 1)]
        # a file handle has methods of the same name
        if fn.attr in ("read", "write", "open", "close") and na <= 1:
            return []
        return out

    # ---- summaries
    def summary(self, f):
        if f in self.memo:
            return self.memo[f]
        s = Summary()
        if f in self.busy:
            return s
        self.busy.add(f)
        try:
            st = State(OK, {p: frozenset([UNK]) for p in f.params + f.kwonly})
            self.f, old, olds = f, getattr(self, "f", None), getattr(self, "cur", None)
            self.cur = s
            o = self.block(f.node.body, [st])
            self.f, self.cur = old, olds
        finally:
            self.busy.discard(f)
        s.io = f in self.io
        rets = list(o.ret) + [(frozenset([None]), x, f.node.body[-1]) for x in merge(o.fall)]
        for v, x, n in rets:
            if x.failed:
                s.fail |= v
                s.rets.append((v, x, n))
            else:
                s.ok |= v
        s.raises = bool(o.exc)
        s.excs = o.exc
        self.memo[f] = s
        return s

    # ---- statements
    def block(self, body, sts):
        out = Out()
        cur = sts
        for n in body:
            if not cur:
                break
            o = self.stmt(n, cur)
            out.jumps(o)
            cur = merge(o.fall)
        out.fall = cur
        return out

    def stmt(self, n, sts):
        out = Out()
        for st in sts:
            self.one(n, st, out)
        return out

    def one(self, n, st, out):
        if isinstance(n, ast.Expr):
            out.fall += [s for _, s in self.ev(n.value, st, out)]
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                out.fall.append(st)
                return
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for v, s in self.ev(n.value, st, out):
                for t in ts:
                    s = self.bind(t, v, s, n.value)
                out.fall.append(s)
        elif isinstance(n, ast.AugAssign):
            for v, s in self.ev(n.value, st, out):
                if isinstance(n.target, ast.Name):
                    old = s.env.get(n.target.id, frozenset([UNK]))
                    if isinstance(n.op, ast.BitAnd):
                        v = self.conj(old, v)
                    elif isinstance(n.op, ast.BitOr):
                        v = self.disj(old, v)
                    else:
                        v = frozenset([UNK]) if not old & {DATA, EMPTY} else frozenset([DATA])
                    s = s.put(n.target.id, v)
                out.fall.append(s)
        elif isinstance(n, ast.Return):
            if n.value is None:
                out.ret.append((frozenset([None]), st, n))
            else:
                out.ret += [(v, s, n) for v, s in self.ev(n.value, st, out)]
        elif isinstance(n, ast.Raise):
            t = "reraise"
            if n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                t = ast.unparse(e).split(".")[-1]
                if isinstance(n.exc, ast.Name) and t in st.env and "exc:" in str(st.env[t]):
                    t = "IO"
            out.exc.append((t, st, n))
        elif isinstance(n, ast.If):
            for v, s in self.ev(n.test, st, out):
                for yes in (True, False):
                    if yes in self.truth(v):
                        o = self.block(n.body if yes else n.orelse, [self.refine(n.test, s, yes)])
                        out.jumps(o)
                        out.fall += o.fall
        elif isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            self.loop(n, st, out)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            self.with_(n, 0, st, out)
        elif isinstance(n, ast.Try):
            self.try_(n, st, out)
        elif isinstance(n, ast.Break):
            out.brk.append(st)
        elif isinstance(n, ast.Continue):
            out.cont.append(st)
        elif isinstance(n, ast.Assert):
            for v, s in self.ev(n.test, st, out):
                t = self.truth(v)
                if True in t:
                    out.fall.append(s)
                if False in t and s.failed:
                    out.exc.append(("AssertionError", s, n))
        elif isinstance(n, ast.Delete) or isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef)):
            out.fall.append(st)
        elif isinstance(n, ast.Match):
            for v, s in self.ev(n.subject, st, out):
                for c in n.cases:
                    o = self.block(c.body, [s])
                    out.jumps(o)
                    out.fall += o.fall
                out.fall.append(s)
        else:
            out.fall.append(st)

    def loop(self, n, st, out):
        cur = [st]
        end = []
        endless = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and bool(n.test.value)
        if not isinstance(n, ast.While):
            cur = [s for _, s in self.ev(n.iter, st, out)]
        for k in range(3):
            go = []
            if isinstance(n, ast.While):
                for s in cur:
                    for v, s2 in self.ev(n.test, s, out):
                        t = self.truth(v)
                        if True in t:
                            go.append(self.refine(n.test, s2, True))
                        if False in t and not endless:
                            end.append(self.refine(n.test, s2, False))
            else:
                end += cur
                go = [self.bind(n.target, frozenset([UNK]), s, None) for s in cur]
            o = self.block(n.body, merge(go))
            out.ret += o.ret
            out.exc += o.exc
            out.fall += o.brk
            cur = merge(o.fall + o.cont)
            if not cur:
                break
        if not isinstance(n, ast.While):
            end += cur
        elif not endless:
            for s in cur:
                for v, s2 in self.ev(n.test, s, Out()):
                    if False in self.truth(v):
                        end.append(self.refine(n.test, s2, False))
        o = self.block(n.orelse, merge(end))
        out.jumps(o)
        out.fall += o.fall

    def with_(self, n, i, st, out):
        if i == len(n.items):
            o = self.block(n.body, [st])
            out.jumps(o)
            out.fall += o.fall
            return
        it = n.items[i]
        c = it.context_expr
        if isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] == "suppress":
            names = {ast.unparse(a).split(".")[-1] for a in c.args}
            inner = Out()
            self.with_(n, i + 1, st, inner)
            for t, s, x in inner.exc:
                if self.matches(t, names):
                    out.fall.append(s)
                    if t == "IO" and not names & {"OSError", "IOError", "EnvironmentError", "Exception", "BaseException"}:
                        out.exc.append((t, s, x))
                else:
                    out.exc.append((t, s, x))
            inner.exc = []
            out.jumps(inner)
            out.fall += inner.fall
            return
        for v, s in self.ev(c, st, out):
            if it.optional_vars is not None:
                s = self.bind(it.optional_vars, v, s, None)
            inner = Out()
            self.with_(n, i + 1, s, inner)
            if WFILE in v:
                # closing writes what is left
                for x in inner.fall:
                    out.exc.append(("IO", x.fail(HARD, n), n))
                for _, x, r in inner.ret:
                    out.exc.append(("IO", x.fail(HARD, n), r))
            out.jumps(inner)
            out.fall += inner.fall

    @staticmethod
    def matches(t, names):
        if names & {"Exception", "BaseException"} or t in names:
            return True
        if t in IOERR or t in ("IO", "reraise"):
            return bool(names & IOERR)
        return False

    def try_(self, n, st, out):
        o = self.block(n.body, [st])
        res = Out()
        res.ret, res.brk, res.cont = o.ret, o.brk, o.cont
        e = self.block(n.orelse, o.fall)
        res.jumps(e)
        res.fall = e.fall
        for t, s, x in o.exc:
            rest = True
            for h in n.handlers:
                names = {"BaseException"} if h.type is None else {ast.unparse(a).split(".")[-1] for a in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
                if not self.matches(t, names):
                    continue
                s2 = s.put(h.name, ["exc:" + t]) if h.name else s
                b = self.block(h.body, [s2])
                b.exc = [((t if k == "reraise" else k), a, c) for k, a, c in b.exc]
                res.jumps(b)
                res.fall += b.fall
                full = names & {"OSError", "IOError", "EnvironmentError", "Exception", "BaseException"} or t in names
                if full:
                    rest = False
                    break
            if rest:
                res.exc.append((t, s, x))
        res.fall = merge(res.fall)
        if not n.finalbody:
            out.jumps(res)
            out.fall += res.fall
            return
        for v, s, x in res.ret:
            b = self.block(n.finalbody, [s])
            out.jumps(b)
            out.ret += [(v, y, x) for y in b.fall]
        for t, s, x in res.exc:
            b = self.block(n.finalbody, [s])
            out.jumps(b)
            out.exc += [(t, y, x) for y in b.fall]
        for k in ("brk", "cont", "fall"):
            b = self.block(n.finalbody, getattr(res, k))
            out.jumps(b)
            getattr(out, k).extend(b.fall)

    def bind(self, t, v, st, value):
        if isinstance(t, ast.Name):
            return st.put(t.id, v)
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                st = self.bind(e, frozenset([DATA if DATA in v else UNK]), st, None)
        elif isinstance(t, ast.Starred):
            return self.bind(t.value, frozenset([UNK]), st, None)
        return st

    # ---- values
    @staticmethod
    def truth(v):
        out = set()
        for x in v:
            if x in (DATA, UNK):
                out |= {True, False}
            elif x in (FILE, WFILE):
                out.add(True)
            elif x == EMPTY:
                out.add(False)
            else:
                out.add(bool(x))
        return out

    def conj(self, a, b):
        out = set()
        for x in a:
            t = self.truth([x])
            if False in t:
                out.add(x if x not in (DATA, UNK) else UNK)
            if True in t:
                out |= b
        return frozenset(out)

    def disj(self, a, b):
        out = set()
        for x in a:
            t = self.truth([x])
            if True in t:
                out.add(x)
            if False in t:
                out |= b
        return frozenset(out)

    def refine(self, test, st, yes):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not yes)
        if isinstance(test, ast.Name) and test.id in st.env:
            keep = frozenset(x for x in st.env[test.id] if yes in self.truth([x]))
            if keep:
                return st.put(test.id, keep)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in st.env and isinstance(test.comparators[0], ast.Constant):
            c = test.comparators[0].value
            eq = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if eq or isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                same = eq == yes
                keep = frozenset(x for x in st.env[test.left.id] if x in (UNK, DATA) and not (c is None and x == DATA and same) or (x == c) == same and x not in (UNK, DATA))
                if keep:
                    return st.put(test.left.id, keep)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == yes:
            for t in test.values:
                st = self.refine(t, st, yes)
        return st

    def ev(self, e, st, out):
        """[(values, state)]; exceptions go to out"""
        if isinstance(e, ast.Constant):
            return [(frozenset([e.value if e.value is None or isinstance(e.value, (bool, int, str, float)) else UNK]), st)]
        if isinstance(e, ast.Name):
            return [(st.env.get(e.id, frozenset([UNK])), st)]
        if isinstance(e, ast.NamedExpr):
            return [(v, self.bind(e.target, v, s, None)) for v, s in self.ev(e.value, st, out)]
        if isinstance(e, ast.Call):
            return self.call(e, st, out)
        if isinstance(e, ast.BoolOp):
            cur = self.ev(e.values[0], st, out)
            for n, x in enumerate(e.values[1:]):
                nxt = []
                for v, s in cur:
                    t = self.truth(v)
                    stop = not isinstance(e.op, ast.And)
                    if stop in t:
                        nxt.append((frozenset(y for y in v if stop in self.truth([y])), self.refine(e.values[n], s, stop)))
                    if (not stop) in t:
                        nxt += self.ev(x, self.refine(e.values[n], s, not stop), out)
                cur = nxt
            return cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(frozenset(not x for x in self.truth(v)), s) for v, s in self.ev(e.operand, st, out)]
        if isinstance(e, ast.IfExp):
            r = []
            for v, s in self.ev(e.test, st, out):
                for yes in self.truth(v):
                    r += self.ev(e.body if yes else e.orelse, self.refine(e.test, s, yes), out)
            return r
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            r = []
            for a, s in self.ev(e.left, st, out):
                for b, s2 in self.ev(e.comparators[0], s, out):
                    r.append((self.cmp(e.ops[0], a, b), s2))
            return r
        if isinstance(e, (ast.List, ast.Set, ast.Tuple)):
            cur = [st]
            for x in e.elts:
                cur = [s for c in cur for _, s in self.ev(x, c, out)]
            return [(frozenset([DATA if e.elts else EMPTY]), s) for s in merge(cur)]
        if isinstance(e, ast.Dict):
            return [(frozenset([DATA if e.keys else EMPTY]), st)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = [st]
            for g in e.generators:
                cur = [self.bind(g.target, frozenset([UNK]), s, None) for c in cur for _, s in self.ev(g.iter, c, out)]
                for c in g.ifs:
                    cur = merge([s for x in cur for _, s in self.ev(c, x, out)])
            elt = e.value if isinstance(e, ast.DictComp) else e.elt
            r = []
            for c in cur:
                for v, s in self.ev(elt, c, out):
                    if s.failed and not c.failed:
                        r.append((frozenset([("has",) + tuple(sorted(map(repr, v)))]), s))
                    else:
                        r.append((frozenset([DATA]), s))
            return r
        if isinstance(e, ast.Starred):
            return self.ev(e.value, st, out)
        cur = [st]
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                cur = merge([s for c in cur for _, s in self.ev(x, c, out)])
        return [(frozenset([UNK]), s) for s in cur]

    @staticmethod
    def cmp(op, a, b):
        out = set()
        for x in a:
            for y in b:
                if x == UNK or y == UNK:
                    out |= {True, False}
                elif {x, y} & {DATA, FILE, WFILE, EMPTY}:
                    if None in (x, y) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                        out.add(isinstance(op, (ast.IsNot, ast.NotEq)))
                    else:
                        out |= {True, False}
                else:
                    try:
                        r = {ast.Is: lambda: x is y or x == y and type(x) is type(y), ast.IsNot: lambda: not (x == y and type(x) is type(y)), ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y,
                             ast.Lt: lambda: x < y, ast.Gt: lambda: x > y, ast.LtE: lambda: x <= y, ast.GtE: lambda: x >= y}[type(op)]()
                        out.add(bool(r))
                    except (KeyError, TypeError):
                        out |= {True, False}
        return frozenset(out)

    def call(self, e, st, out):
        fn = e.func
        cur = [st]
        first = None
        if isinstance(fn, ast.Attribute):
            cur = merge([s for v, s in self.ev(fn.value, st, out)])
        for x in list(e.args) + [k.value for k in e.keywords]:
            nxt = []
            for c in cur:
                for v, s in self.ev(x, c, out):
                    nxt.append(s)
                    if x is (e.args[0] if e.args else None):
                        first = (first or frozenset()) | v if s.failed == st.failed else v
            cur = nxt if len(nxt) < 3 else merge(nxt)
        r = []
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        for s in cur:
            r += self.call1(e, name, s, out, first)
        return r

    def call1(self, e, name, s, out, first):
        fn = e.func
        recv = s.env.get(fn.value.id, frozenset()) if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) else frozenset()
        if recv & {FILE, WFILE} and isinstance(fn, ast.Attribute):
            if WFILE in recv and name in ("write", "writelines", "close", "flush"):
                out.exc.append(("IO", s.fail(HARD, e), e))
            return [(frozenset([UNK]), s)]
        if isinstance(fn, ast.Attribute) and name in EXISTS:
            return [(frozenset([True]), s), (frozenset([False]), s.fail(SOFT, e))]
        if self.opname(e) and not self.callees(self.f, e, s.env):
            mode = next((a.value for a in list(e.args)[1:2] + [k.value for k in e.keywords if k.arg == "mode"] if isinstance(a, ast.Constant) and isinstance(a.value, str)), "r")
            if isinstance(fn, ast.Attribute) and name == "open":
                mode = next((a.value for a in list(e.args)[:1] + [k.value for k in e.keywords if k.arg == "mode"] if isinstance(a, ast.Constant) and isinstance(a.value, str)), "r")
            out.exc.append(("IO", s.fail(HARD, e), e))
            self.cur.sites.add(e)
            good = State(OK, s.env, None)
            if name == "open":
                return [(frozenset([WFILE if set(mode) & set("wax+") else FILE]), good)]
            return [(frozenset([DATA]), good)]
        cs = self.callees(self.f, e, s.env)
        if cs:
            self.cur.sites.add(e)
            if s.failed == HARD:
                self.cur.after.append((e, s))
            r = []
            for g in cs:
                keep = self.f, self.cur
                m = self.summary(g)
                self.f, self.cur = keep
                if m.raises or any(True for _ in m.excs):
                    bad = [x for x in m.excs if x[1].failed]
                    if bad:
                        out.exc.append(("IO", s.fail(HARD, e), e))
                if m.fail:
                    r.append((m.fail, s.fail(HARD, e)))
                if m.ok:
                    r.append((m.ok, s))
            return r or [(frozenset([UNK]), s)]
        if name in ("bool",) and first is not None:
            return [(frozenset(self.truth(first)), s)]
        if name in ("all", "any") and first is not None and s.failed:
            h = next((x for x in first if isinstance(x, tuple) and x[0] == "has"), None)
            if h is not None:
                if name == "all" and set(h[1:]) <= {"False", "None", "0"}:
                    return [(frozenset([False]), s)]
                return [(frozenset([UNK]), s)]
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in s.env and name in ("append", "extend", "insert", "add", "update"):
            return [(frozenset([None]), s.put(fn.value.id, [DATA]))]
        if isinstance(fn, ast.Name):
            r = self.pkg.resolve(self.f.mod, fn.id) if fn.id not in s.env else None
            if fn.id == "cls" or r and r[0] == "cls":
                return [(frozenset([DATA]), s)]
            if r and r[0] == "func" and self.always_raises(r[1]):
                out.exc.append(("IO", s, e))
                return []
            if r and r[0] == "func" and s.failed:
                v = self.helper(r[1], e, s, out, 0)
                if v is not None:
                    return v
            if fn.id in ("list", "dict", "set", "tuple") and not e.args:
                return [(frozenset([EMPTY]), s)]
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and self.f.cls is not None and s.failed:
            g = self.pkg.method(self.f.cls, fn.attr)
            if g is not None:
                v = self.helper(g, e, s, out, 0 if g.static else 1)
                if v is not None:
                    return v
        if name == "exit" or name == "_exit":
            out.exc.append(("SystemExit", s, e))
            return []
        if name in ("zeros", "ones", "empty", "recarray", "array", "full", "asarray"):
            a = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg in ("shape",)), None)
            a = a.elts[0] if isinstance(a, ast.Tuple) and a.elts else a
            if isinstance(a, ast.Constant) and a.value == 0 or isinstance(a, (ast.List, ast.Tuple)) and not a.elts:
                return [(frozenset([EMPTY]), s)]
            return [(frozenset([DATA]), s)]
        return [(frozenset([UNK]), s)]

    def helper(self, g, e, s, out, skip):
        """a routine without file operations that is given the result of one: [(value, state)], or None"""
        if g in self.io or g in self.busy or len(self.busy) > 12 or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(g.node)):
            return None
        env = {p: frozenset([UNK]) for p in g.params + g.kwonly}
        a = g.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, ast.Constant):
                env[p] = self.ev(d, s, Out())[0][0]
        for p, x in list(zip(g.params[skip:], e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]:
            if isinstance(x, ast.Starred):
                return None
            if p in env:
                env[p] = frozenset() if not isinstance(x, ast.Starred) else env[p]
                for v, _ in self.ev(x, s, Out()):
                    env[p] |= v
        if not any(v & {None, True, False} for v in env.values()):
            return None
        self.busy.add(g)
        f, self.f = self.f, g
        try:
            o = self.block(g.node.body, [State(s.failed, env, s.site)])
        finally:
            self.f = f
            self.busy.discard(g)
        out.exc += [(t, s, e) for t, x, _ in o.exc]
        r = [(v, s) for v, _, _ in o.ret]
        if o.fall:
            r.append((frozenset([None]), s))
        return r

    def always_raises(self, g):
        b = [x for x in g.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        from .rulekit import ends_in_raise
        return ends_in_raise(b)
