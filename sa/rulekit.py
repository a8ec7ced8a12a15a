"""Obligations, reporting and helpers shared by the rules."""

import ast
import json
import os
import time

from .terms import *
from . import terms as tm
from .interp import Interp, State, Heap, Undecided
from .model import Package, REPO
from . import pit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOLDS, VIOLATED, UNKNOWN = "holds", "violated", "undecided"


class Run:
    """one analysed function"""

    def __init__(self, func, ip, value, st):
        self.func, self.ip, self.value, self.st = func, ip, value, st

    @property
    def events(self):
        return self.ip.events

    def ev(self, *kinds):
        return [e for e in self.ip.events if e.kind in kinds]

    def ret(self):
        return self.ip.snap(self.st, self.value)

    def elem(self, t, *ks):
        for k in ks:
            t = self.ip.getitem(self.st, t, k if isinstance(k, T) else (num(k) if isinstance(k, int) else string(k)), None)
        return self.ip.snap(self.st, t)

    def field(self, t, *names):
        for n in names:
            t = self.ip.getattr(self.st, t, n, None)
        return self.ip.snap(self.st, t)


class Ctx:
    def __init__(self, pid, pkg, tier):
        self.pid, self.pkg, self.tier = pid, pkg, tier
        self.obl = []
        self.rules = []
        self.cache = {}
        self.analysed = set()
        self.specs = None

    # ---- obligations
    def add(self, key, status, where, msg, detail=None):
        self.obl.append((key, status, where, msg, detail))

    def hold(self, key, where, msg=""):
        self.add(key, HOLDS, where, msg)

    def bad(self, key, where, msg, detail=None):
        self.add(key, VIOLATED, where, msg, detail)

    def unk(self, key, where, msg=""):
        self.add(key, UNKNOWN, where, msg)

    def rule(self, text):
        self.rules.append(text)

    # ---- running the analysis
    def func(self, mod, qual):
        f = self.pkg.func(mod, qual)
        if f is None and "." not in qual:
            for m in self.pkg.mods.values():
                if qual in m.funcs and not m.name.startswith("spec"):
                    return m.funcs[qual]
        return f

    def run(self, mod, qual, args=None, types=None, opaque=(), key=None, sets=(), **kw):
        """analyse a public function; None when it does not exist or can not be analysed.
        sets: initial values of fields, (dotted path starting at a parameter, term)"""
        if isinstance(args, (list, tuple)):
            f0 = self.func(mod, qual)
            args = dict(zip(f0.params, args)) if f0 is not None else {}
        k = (mod, qual, key or (tuple(sorted((a, v.id) for a, v in (args or {}).items())), tuple(sorted(opaque)),
                                tuple((a, b.id) for a, b in sets),
                                tuple(sorted((a, str(b.id if isinstance(b, T) else b)) for a, b in kw.items()))))
        if k in self.cache:
            return self.cache[k]
        f = self.func(mod, qual)
        r = None
        if f is None:
            self.unk("anchor", "%s.%s" % (mod, qual), "function not found")
        else:
            ip = Interp(self.pkg, opaque=opaque, **kw)
            try:
                st0 = initial(ip, f, args, types, sets) if sets else None
                v, st = ip.start(f, args, types, st0)
                r = Run(f, ip, v, st)
                for g in ip.funcs_seen:
                    self.analysed.add("%s.%s" % (g.mod.name, g.qual))
            except (Undecided, TooBig, RecursionError) as ex:
                self.unk("analysis", where(f), "not analysed: %s" % ex)
        self.cache[k] = r
        return r

    def spec(self, qual, args=None, types=None, opaque=(), sets=(), **kw):
        """analyse a reference definition from sa/spec"""
        if self.specs is None:
            self.specs = []
            d = os.path.join(os.path.dirname(__file__), "spec")
            for fn_ in sorted(os.listdir(d)):
                if fn_.endswith(".py"):
                    nm = "spec_" + fn_[:-3]
                    if nm not in self.pkg.mods:
                        self.pkg.add_source(nm, os.path.join(d, fn_))
                    self.specs.append(nm)
        for m in self.specs:
            f = self.pkg.mods[m].funcs.get(qual)
            if f is not None:
                ip = Interp(self.pkg, opaque=opaque, **kw)
                if isinstance(args, (list, tuple)):
                    args = dict(zip(f.params, args))
                st0 = initial(ip, f, args, types, sets) if sets else None
                v, st = ip.start(f, args, types, st0)
                return Run(f, ip, v, st)
        raise KeyError(qual)

    # ---- comparisons
    def same(self, key, wh, got, want, msg, under=TRUE, pre=None, soft=()):
        """obligation: got equals want (under a condition)"""
        r, d = compare(got, want, under, pre)
        if r == "ne" and soft and not {x.args[0] for x in walk(want) if x.op == "call" and x.args[0] in soft} <= \
                {x.args[0] for x in walk(got) if x.op == "call"}:
            r = "unk"  # computed without the routine that was kept opaque
        if r == "eq":
            self.hold(key, wh, msg)
            return True
        if r == "ne":
            self.bad(key, wh, "%s: found %s, required %s" % (msg, show(got, 5)[:300], show(want, 5)[:300]), d)
            return False
        self.unk(key, wh, msg)
        return None


def mat(name, n=3, m=3):
    s = mk("sym", name)
    return seq([seq([mk("sel", mk("sel", s, num(i)), num(j)) for j in range(m)], "array") for i in range(n)], "array")


def cal_sets(path_, tag):
    """explicit arrays for a calibration: rotation matrix, glass vector, distortion parameters"""
    return ((path_ + ".ext_par.dm", mat("R:" + tag)),
            (path_ + ".glass_par", vec("glass:" + tag, 3)),
            (path_ + ".added_par", vec("ap:" + tag, 7)),
            (path_ + ".mmlut", mk("sym", "lut:" + tag)))


def initial(ip, f, args, types, sets):
    """a state in which some fields of the parameters have given values"""
    st = State({}, Heap())
    ip.stack.append(f)
    try:
        for p, v in sets:
            if v.op == "sym" and p.endswith("mmlut"):
                ip.set_type(v, "nd")
            parts = p.split(".")
            b = (args or {}).get(parts[0]) or mk("sym", parts[0])
            if (args or {}).get(parts[0]) is None:
                ty = (types or {}).get(parts[0])
                if ty is None and parts[0] in f.ann:
                    ty = ip.ann_type(f.ann[parts[0]], f.mod)
                ip.set_type(b, ty)
            for x in parts[1:-1]:
                b = ip.getattr(st, b, x, None) if not x.isdigit() else ip.getitem(st, b, num(int(x)), None)
            ip.write(st, b, string(parts[-1]) if not parts[-1].isdigit() else num(int(parts[-1])), v, None, quiet=True)
    finally:
        ip.stack.pop()
    return st


def where(f, node=None):
    return "%s:%d (%s)" % (f.mod.path, getattr(node or f.node, "lineno", 0), f.qual)


def ne(a, b):
    return not_(eq(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def compare(a, b, under=TRUE, pre=None):
    if a is b:
        return "eq", None
    if a.op == "seq" and b.op == "seq":
        if len(elems(a)) != len(elems(b)):
            return "ne", ("length", len(elems(a)), len(elems(b)))
        res = "eq"
        for x, y in zip(elems(a), elems(b)):
            r, d = compare(x, y, under, pre)
            if r == "ne":
                return r, d
            if r == "unk":
                res = "unk"
        return res, None
    big = pit._size(a) + pit._size(b) > 400
    if big:
        d = pit.differs(a, b, under, pre=pre)
        if d is None:
            return "eq", None
        if d != "unk":
            return "ne", d
    try:
        if not big and not isbool(a) and tm.equal(a, b, under) is True:
            return "eq", None
        if isbool(a) and isbool(b):
            if implies(and_(under, a), b, 8) and implies(and_(under, b), a, 8):
                return "eq", None
    except (TooBig, RecursionError):
        pass
    if const_like(a) and const_like(b):
        return "ne", (show(a), show(b))
    if not big:
        d = pit.differs(a, b, under, pre=pre)
    if d is None:
        return "eq", None
    if d == "unk":
        return "unk", None
    return "ne", d


def const_like(t):
    return t.op in ("num", "str", "bool", "none", "inf")


def vec(name, n, kind="array"):
    s = mk("sym", name)
    return seq([mk("sel", s, num(i)) for i in range(n)], kind)


def syms(*names, ints=False):
    r = []
    for n in names:
        s = mk("sym", n)
        if ints:
            INTS.add(s)
        r.append(s)
    return r if len(r) > 1 else r[0]


def isym(name):
    s = mk("sym", name)
    INTS.add(s)
    return s


def path(t):
    """dotted path of a location term, indices as *"""
    if t.op == "sel":
        k = t.args[1]
        if k.op == "str":
            return path(t.args[0]) + "." + k.args[0]
        return path(t.args[0]) + "[]"
    if t.op == "sym":
        return t.args[0]
    if t.op == "obj":
        return "<%s>" % (t.args[1] or t.args[0])
    return "?" + t.op


def root(t):
    while True:
        if t.op == "sel" or t.op == "row" or t.op == "snap" or t.op == "cp":
            t = t.args[0]
        else:
            return t


def fieldname(t):
    """last field name on a path"""
    while t.op == "sel":
        if t.args[1].op == "str":
            return t.args[1].args[0]
        t = t.args[0]
    return None


# ---- facts about guards
INTERPRETED = {"poly", "paren",  "num", "bool", "and", "or", "not", "le0", "lt0", "eq0", "eq", "phi", "max", "min", "sqrt", "str", "none", "truth", "inf", "abs"}
_atoms = {}


def atomise(t):
    """the term with every uninterpreted part replaced by a variable"""
    def go(x):
        r = _atoms.get(x)
        if r is not None:
            return r
        if x.op in INTERPRETED or x.op == "fn" and x.args[0] in ("int", "floor", "ceil", "abs", "mod", "floordiv"):
            r = rebuild(x, go) if kids(x) else x
        else:
            r = mk("sym", "@%d" % x.id)
            if is_int(x):
                INTS.add(r)
        _atoms[x] = r
        return r
    return go(t)


def conjuncts(g):
    return list(g.args) if g.op == "and" else [g]


def atoms_of(t):
    return {x for x in walk(atomise(t)) if x.op == "sym"}


def value_atoms(t):
    """variables of a term outside the conditions of conditional values"""
    out, todo, seen = set(), [atomise(t)], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sym":
            out.add(x)
        todo.extend(x.args[1:] if x.op == "phi" else kids(x))
    return out


def bycases(g, lit, depth=4):
    """entailment, splitting on the conditions of conditional values"""
    if implies(g, lit, 4):
        return True
    if depth == 0:
        return False
    c = next((x.args[0] for x in walk(lit) if x.op == "phi"), None)
    if c is None:
        return False
    for v in (True, False):
        cc = c if v else not_(c)
        l, h = tm.deep_assume(lit, cc), tm.deep_assume(g, cc)
        if l is lit and h is g or not bycases(h, l, depth - 1):
            return False
    return True


def implied(g, lit, pre=None, tries=400, positive=()):
    """True / False (a counterexample of the conditions that speak about the same quantities) / None"""
    rel, at = [], value_atoms(lit)
    for c in conjuncts(g):
        if c is lit or value_atoms(c) & at:
            rel.append(c)
    small = and_(*rel)
    if bycases(small, lit) or pit._size(g) < 1500 and implies(g, lit, 2):
        return True
    a, b = atomise(small), atomise(lit)
    pos = [atomise(x) for x in positive]
    own = [x for x in walk(b) if x.op in ("lt0", "le0", "eq0")][:3]
    for env in pit.sample_envs([a, b], tries, 7, own):
        try:
            for x in pos:
                if x.op == "sym" and pit._n(pit.evalt(x, env)) < 0:
                    env.vals[pit._ckey(x, env)] = -pit.evalt(x, env)
                    env.memo.clear()
            if pit._b(a, env) and not pit._b(b, env):
                return False
        except (pit.Skip, OverflowError, ZeroDivisionError, TypeError, RecursionError):
            continue
    return None


def load_known(path_):
    out = []
    if os.path.exists(path_):
        for l in open(path_):
            l = l.strip()
            if l.startswith("KNOWN "):
                # KNOWN property=<id> key=<key> where=<substr> :: text
                out.append(l[6:])
    return out


def report(ctx, mod, seed, t0):
    vio = [o for o in ctx.obl if o[1] == VIOLATED]
    known = load_known(os.path.join(VERIF, "known-findings.txt"))
    ev = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    new = []
    for o in vio:
        sig = "%s @ %s" % (o[0], o[2].split(":")[0] + " " + o[2].split("(")[-1].rstrip(")"))
        hit = [k for k in known if k.startswith("property=%s " % ctx.pid) and sig in k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, sig))
        else:
            new.append((sig, o))
    rp = os.path.join(ev, "replay-%s.json" % ctx.pid)
    if new:
        with open(rp, "w") as f:
            json.dump([{"signature": s, "where": o[2], "rule": o[0], "message": o[3], "witness": str(o[4])[:2000]}
                       for s, o in new], f, indent=1)
        for s, o in new[:20]:
            print("  %s: %s: %s" % (o[2], o[0], o[3]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
    elif os.path.exists(rp):
        os.unlink(rp)
    n = {s: sum(1 for o in ctx.obl if o[1] == s) for s in (HOLDS, VIOLATED, UNKNOWN)}
    json.dump({
        "property": ctx.pid, "tier": ctx.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": " ".join(ctx.rules) + " Functions analysed with inlined callees: " + ", ".join(sorted(ctx.analysed)) +
            ". Each obligation is a fact about the value graph, effects or guards extracted from the current source; "
            "an obligation that the analysis can not decide is counted as undecided and not reported.",
            "obligations": len(ctx.obl), "discharged": n[HOLDS], "violated": n[VIOLATED], "undecided": n[UNKNOWN],
            "functions_analysed": len(ctx.analysed),
            "undecided_list": ["%s at %s: %s" % (o[0], o[2], o[3][:160]) for o in ctx.obl if o[1] == UNKNOWN][:60],
            "sample_discharged": ["%s at %s: %s" % (o[0], o[2], o[3][:160]) for o in ctx.obl if o[1] == HOLDS][:60],
        },
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "numbers are treated as exact reals; rounding is outside the analysis except where the property is about it",
            "library functions (numpy, scipy, yaml, numba) behave as documented",
        ],
    }, open(os.path.join(ev, "%s.json" % ctx.pid), "w"), indent=1)
    if os.environ.get("SA_VERBOSE"):
        for o in ctx.obl:
            print(o[1].upper(), o[0], o[2], o[3][:220])
    print("%s: %d obligations, %d hold, %d violated, %d undecided (%.1fs)" % (
        ctx.pid, len(ctx.obl), n[HOLDS], n[VIOLATED], n[UNKNOWN], time.time() - t0))
    return 1 if new else 0


IOERR = {"OSError", "IOError", "FileNotFoundError", "EnvironmentError", "Exception", "BaseException", "PermissionError"}


def catches(h, names=IOERR):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(ast.unparse(t).split(".")[-1] in names for t in ts)


def ends_in_raise(body):
    """every path through the statements raises"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and ends_in_raise(s.body) and ends_in_raise(s.orelse):
            return True
        if isinstance(s, ast.With) and ends_in_raise(s.body):
            return True
    return False


def opens(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                nm = ast.unparse(n.func).split(".")[-1]
                if nm in ("open", "read_text", "write_text", "genfromtxt", "loadtxt", "savetxt", "read", "write", "readline"):
                    return True
    return False


def swallowed(r, failure=()):
    """handlers of file errors that neither raise nor return a failure value"""
    out = []
    for g in r.ip.funcs_seen:
        for n in ast.walk(g.node):
            if not isinstance(n, ast.Try) or not opens(n.body):
                continue
            for h in n.handlers:
                if not catches(h) or ends_in_raise(h.body):
                    continue
                ret = [x for s in h.body for x in ast.walk(s) if isinstance(x, ast.Return)]
                if failure and ret and all(x.value is not None and ast.unparse(x.value) in failure for x in ret) and isinstance(h.body[-1], ast.Return):
                    continue
                out.append((g, h))
    return out


# ---- text files
def written(r, fileterm=None):
    """what a function writes to a file: list of lines, each a list of tokens (a token is a list of pieces); None when unclear"""
    lines = [[[]]]
    for e in r.ev("fwrite"):
        if fileterm is not None and e.file is not fileterm:
            continue
        if e.loops or e.lines:
            return None
        v = e.val
        parts = [v] if v.op == "phi" else list(v.args[0]) if v.op == "fmt" and isinstance(v.args[0], tuple) else list(v.args) if v.op == "fmt" else [v]
        for p in parts:
            if p.op != "str":
                lines[-1][-1].append(p)
                continue
            s = p.args[0]
            buf = ""
            for ch in s:
                if ch in " \t\n":
                    if buf:
                        lines[-1][-1].append(string(buf))
                        buf = ""
                    if ch == "\n":
                        lines.append([[]])
                    elif lines[-1][-1]:
                        lines[-1].append([])
                else:
                    buf += ch
            if buf:
                lines[-1][-1].append(string(buf))
    return [[t for t in l if t] for l in lines]


def tokval(tok):
    """value of a token made of one formatted value"""
    if len(tok) == 1:
        return tok[0].args[0] if tok[0].op == "fv" else tok[0]
    return None


def dtype_fields(pkg, name):
    """field names of a record dtype defined at module level"""
    import ast
    for m in pkg.mods.values():
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                out = [e.elts[0].value for e in ast.walk(n.value) if isinstance(e, ast.Tuple) and e.elts and isinstance(e.elts[0], ast.Constant)
                       and isinstance(e.elts[0].value, str)]
                if out:
                    return out
    return None


def record(r, v, fields):
    """the fields of a record value, however it is built"""
    if v.op == "obj" and v in r.ip.objs:
        o = r.ip.objs[v]
        if getattr(o, "init", None) is not None:
            v = o.init
        else:
            try:
                return {f: r.field(v, f) for f in fields}
            except Exception:
                return None
    while v.op == "seq" and len(elems(v)) == 1:
        v = elems(v)[0]
    if v.op == "seq" and len(elems(v)) == len(fields):
        return dict(zip(fields, elems(v)))
    if v.op == "rec":
        d = {k.args[0] if isinstance(k, T) else k: x for k, x in v.args[1]}
        return d if all(f in d for f in fields) else None
    return None
