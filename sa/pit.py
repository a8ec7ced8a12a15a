"""Identity testing of value-graph terms.

Two normal forms that are not syntactically equal may still denote the same
function (the normal form is not complete for square roots, trigonometry and
piecewise terms).  Before a mismatch is reported the terms are evaluated as
algebraic expressions at sample points (Schwartz-Zippel): only a mismatch that
shows at a point is a mismatch.  This evaluates extracted terms, not the
program.
"""

import math
import random

from mpmath import mp, mpf
import zlib
from fractions import Fraction as F

from .terms import *


mp.dps = 80


def hp(v):
    """high precision number"""
    if isinstance(v, F):
        return mpf(v.numerator) / mpf(v.denominator)
    return mpf(v)


class Skip(Exception):
    pass


OPAQUE = {"mu", "muout", "unk", "hphi", "hphi2", "havoc", "many", "many2", "uninit", "op", "arr0"}


def opaque(t):
    return contains(t, lambda x: x.op in OPAQUE)


class Env:
    def __init__(self, seed, fixed=None, pos=False, big=False):
        self.seed = seed
        self.rnd = random.Random(seed)
        self.vals = dict(fixed or {})
        self.scale = self.rnd.choice([1, 1, 2, 5])
        self.memo = {}
        self.bound = {}
        self.names = {}
        self.forced = set()
        self.pos = pos
        self.fl = False
        self.hp = False
        self.crisp = False

    def fresh(self, key, isint):
        h = zlib.crc32(repr((self.seed, key)).encode())
        r = random.Random(h)
        if isint:
            return r.randint(0, 5)
        m = r.random()
        if m < 0.08:
            return F(r.randint(-2, 3))
        v = F(r.randint(1, 997), r.randint(50, 400)) * self.scale
        if self.fl:
            v = float(v)
        if not self.pos and r.random() < 0.3:
            v = -v
        return v


def evalt(t, env):
    k = (t, tuple(sorted((a.id, v) for a, v in env.bound.items()))) if env.bound else t
    r = env.memo.get(k)
    if r is None:
        r = env.memo[k] = _ev(t, env)
    return r


def _key(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, F)):
        return ("n", F(x).limit_denominator(10 ** 9))
    if isinstance(x, mpf):
        x = float(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return ("f", repr(x))
        if x == int(x) if abs(x) < 1e15 else False:
            return ("n", F(int(x)))
        return ("n", F("%.8g" % x))
    if isinstance(x, list):
        return tuple(_key(y) for y in x)
    return x


def _ev(t, env):
    o, a = t.op, t.args
    if t in env.bound:
        return env.bound[t]
    if o == "num":
        return a[0]
    if o == "bool":
        return a[0]
    if o in ("str",):
        return ("s", a[0])
    if o == "none":
        return None
    if o == "inf":
        return math.inf * a[0]
    if o == "nan":
        raise Skip
    if o == "pi":
        return math.pi
    if o == "poly":
        pw = {}
        fl = False
        for m, c in a[0]:
            for xe in m:
                if xe in pw:
                    continue
                x, e = xe
                v = evalt(x, env)
                if isinstance(v, bool):
                    v = int(v)
                elif not isinstance(v, (int, float, F, mpf)):
                    raise Skip
                if e != 1:
                    if e < 0:
                        if v == 0:
                            raise Skip
                        if isinstance(v, int):
                            v = F(v)
                    v = v ** e
                if isinstance(v, (float, mpf)):
                    fl = True
                pw[xe] = v
        if fl and env.hp:
            s = mpf(0)
            for m, c in a[0]:
                p = hp(c)
                for xe in m:
                    p *= hp(pw[xe])
                s += p
            return s
        if fl:
            for k, v in pw.items():
                if not isinstance(v, float):
                    pw[k] = float(v)
            s = 0.0
            for m, c in a[0]:
                p = float(c)
                for xe in m:
                    p *= pw[xe]
                s += p
            return s
        s = 0
        for m, c in a[0]:
            p = c
            for xe in m:
                p = p * pw[xe]
            s = s + p
        if isinstance(s, F) and s.denominator.bit_length() > 600:
            s = hp(s) if env.hp else float(s)
        return s
    if o == "paren":
        return evalt(a[0], env)
    if o == "sqrt":
        v = _n(evalt(a[0], env))
        if v < 0:
            if v > -1e-9:
                return 0.0
            raise Skip
        if env.hp:
            return mp.sqrt(hp(v))
        return math.sqrt(v)
    if o == "pow":
        x, y = _n(evalt(a[0], env)), _n(evalt(a[1], env))
        try:
            if isinstance(y, (int, F)) and F(y).denominator == 1:
                return x ** int(y)
            if env.hp:
                if x < 0:
                    raise Skip
                return hp(x) ** hp(y)
            r = float(x) ** float(y)
        except (ZeroDivisionError, OverflowError):
            raise Skip
        if isinstance(r, complex):
            raise Skip
        return r
    if o in ("max", "min"):
        v = [_n(evalt(x, env)) for x in a]
        if any(isinstance(x, mpf) for x in v):
            v = [hp(x) for x in v]
        return max(v) if o == "max" else min(v)
    if o == "phi":
        return evalt(a[1] if _b(a[0], env) else a[2], env)
    if o in ("lt0", "le0", "eq0"):
        v = _n(evalt(a[0], env))
        if isinstance(v, (float, mpf)) and abs(v) < 1e-9 and not (env.crisp and v == 0):
            raise Skip
        return v < 0 if o == "lt0" else v <= 0 if o == "le0" else v == 0
    if o == "and":
        return all(_b(x, env) for x in a)
    if o == "or":
        return any(_b(x, env) for x in a)
    if o == "not":
        return not _b(a[0], env)
    if o == "truth":
        v = evalt(a[0], env)
        if isinstance(v, (int, float, F)):
            return bool(v)
        return env.fresh(("truth", _key(v)), True) % 2 == 1
    if o == "eq":
        return _key(evalt(a[0], env)) == _key(evalt(a[1], env))
    if o == "seq":
        return [evalt(x, env) for x in a[1]]
    if o in ("ex", "sum", "rmax", "rmin", "wit", "lastwit", "comp"):
        return _bounded(t, env)
    if o == "fn":
        return _fn(t, env)
    if o == "len":
        v = evalt(a[0], env)
        if isinstance(v, list):
            return len(v)
        return env.fresh(("len", _key(v)), True) + 1
    if o == "sel":
        b = evalt(a[0], env) if a[0].op in ("seq", "comp", "phi", "sel", "fn") else None
        if a[1].op == "slice":
            if not isinstance(b, list):
                raise Skip
            ix = [None if x.op == "none" else evalt(x, env) for x in a[1].args]
            if any(x is not None and (not isinstance(x, (int, F)) or F(x).denominator != 1) for x in ix):
                raise Skip
            return b[slice(*[None if x is None else int(x) for x in ix])]
        if a[1].op in ("mkey", "ellipsis"):
            raise Skip
        i = evalt(a[1], env)
        if isinstance(b, list) and isinstance(i, (int, F)) and F(i).denominator == 1:
            if -len(b) <= i < len(b):
                return b[int(i)]
            return env.fresh(("oob", _ckey(a[0], env), _key(i)), False)
        if a[0].op == "phi":
            return evalt(sel(a[0].args[1] if _b(a[0].args[0], env) else a[0].args[2], a[1]), env)
        return _atom(t, _ckey(t, env), env)
    if o == "snap":
        return _snap(t, env)
    return _atom(t, _ckey(t, env), env)


def _snap(t, env):
    raise Skip


RANGES = {"gR": (0, 4), "gS": (-1.5, 4.5), "grw": (1, 3), "gQ": (5, 60), "gz0": (100, 200), "gZ": (-30, 30), "gd": (1, 6),
          "n1": (1.0, 1.25), "n2": (1.4, 1.6), "n3": (1.3, 1.4), "pix_x": (0.002, 0.02), "pix_y": (0.002, 0.02)}


def _field(t):
    while t.op == "sel":
        if t.args[1].op == "str":
            return t.args[1].args[0]
        t = t.args[0]
    return t.args[0] if t.op == "sym" else None


def _rotation(name, env):
    """entries of symbols named R:... form a proper rotation"""
    k = ("rot", name)
    if k not in env.vals:
        r = random.Random(zlib.crc32(repr((env.seed, name)).encode()))
        w, p, q = (r.uniform(-1.2, 1.2) for _ in range(3))
        cw, sw, cp, sp, cq, sq = math.cos(w), math.sin(w), math.cos(p), math.sin(p), math.cos(q), math.sin(q)
        env.vals[k] = [[cp * cq, -cp * sq, sp],
                       [cw * sq + sw * sp * cq, cw * cq - sw * sp * sq, -sw * cp],
                       [sw * sq - cw * sp * cq, sw * cq + cw * sp * sq, cw * cp]]
    return env.vals[k]


def _atom(t, key, env):
    if t.op in ("slice", "mkey", "ellipsis", "comp"):
        raise Skip
    if key in env.vals:
        return env.vals[key]
    if t.op == "sel" and t.args[0].op == "sel" and t.args[0].args[0].op == "sym":
        nm = t.args[0].args[0].args[0]
        if isinstance(nm, str) and nm.startswith("R:"):
            i, j = evalt(t.args[0].args[1], env), evalt(t.args[1], env)
            return _rotation(nm, env)[int(i)][int(j)]
    if t.op in ("sel", "sym"):
        rg = RANGES.get(_field(t))
        if rg:
            r = random.Random(zlib.crc32(repr((env.seed, key)).encode()))
            v = F("%.6f" % r.uniform(*rg))
            v = env.vals[key] = float(v) if env.fl else v
            env.names[key] = t
            return v
    if t.op in ("isinst", "exc", "in"):
        v = env.fresh(key, True) % 2 == 1
    else:
        v = env.fresh(key, is_int(t))
    env.vals[key] = v
    env.names[key] = t
    return v


def _ckey(t, env):
    """identity of an uninterpreted value: structural, indices by value"""
    if t.op == "sel":
        k = t.args[1]
        return ("sel", _ckey(t.args[0], env), k.args[0] if k.op == "str" else _key(evalt(k, env)))
    if t.op in ("sym", "obj", "cls", "glob"):
        return (t.op,) + tuple(x if not isinstance(x, T) else x.id for x in t.args)
    if t.op in ("poly", "phi", "seq", "comp", "max", "min", "sqrt", "num"):
        return ("v", _key(evalt(t, env)))
    if t.op == "fn":
        return ("fn",) + tuple(_akey(x, env) for x in t.args)
    return (t.op,) + tuple(_akey(x, env) for x in t.args)


def _akey(x, env):
    if isinstance(x, T):
        if x.op in ("str", "none"):
            return (x.op, x.args)
        if x.op == "phi":
            return _akey(x.args[1] if _b(x.args[0], env) else x.args[2], env)
        if x.op in ("sym", "obj", "cls", "glob", "sel", "call", "fn") and not _interp(x):
            return _ckey(x, env)
        if x.op == "snap":
            ent = []
            for kv in x.args[1]:
                if not (isinstance(kv, tuple) and len(kv) == 2):
                    raise Skip
                ent.append((repr(_akey(kv[0], env)), _akey(kv[1], env)))
            ent.sort(key=repr)
            return ("snap", _akey(x.args[0], env), tuple(ent))
        return _key(evalt(x, env))
    if isinstance(x, tuple):
        return tuple(_akey(y, env) for y in x)
    return x


def _interp(x):
    return x.op == "fn" and x.args[0] in ("sin", "cos", "tan", "arctan", "arcsin", "arccos", "exp", "log", "floor", "ceil",
                                          "int", "round", "floordiv", "mod", "fmod", "arctan2")


def _n(v):
    if isinstance(v, bool):
        return int(v)
    if not isinstance(v, (int, float, F, mpf)):
        raise Skip
    return v


def _b(t, env):
    v = evalt(t, env)
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float, F, mpf)):
        return bool(v)
    raise Skip


def _bounded(t, env):
    idx, lo, hi = t.args[0], _n(evalt(t.args[1], env)), _n(evalt(t.args[2], env))
    if hi == math.inf or hi - lo > 12:
        raise Skip
    rng = range(int(math.ceil(lo)), int(math.ceil(hi)))
    old = env.bound.get(idx)
    out = []
    try:
        for i in rng:
            env.bound[idx] = i
            if t.op == "ex":
                if _b(t.args[3], env):
                    return True
            elif t.op in ("sum", "rmax", "rmin"):
                out.append(_n(evalt(t.args[3], env)))
            elif t.op == "comp":
                if _b(t.args[4], env):
                    out.append(evalt(t.args[3], env))
            elif t.op in ("wit", "lastwit"):
                if _b(t.args[3], env):
                    out.append(evalt(t.args[4], env))
                    if t.op == "wit":
                        return out[0]
    finally:
        if old is None:
            env.bound.pop(idx, None)
        else:
            env.bound[idx] = old
    if t.op == "ex":
        return False
    if t.op == "sum":
        return sum(out)
    if t.op == "comp":
        return out
    if t.op in ("rmax", "rmin"):
        if not out:
            return -math.inf if t.op == "rmax" else math.inf
        return max(out) if t.op == "rmax" else min(out)
    if not out:
        raise Skip
    return out[-1]


def _fn(t, env):
    nm = t.args[0]
    if nm in ("sin", "cos", "tan", "arctan", "arcsin", "arccos", "exp", "log"):
        x = _n(evalt(t.args[1], env))
        if env.hp:
            if nm in ("arcsin", "arccos") and abs(x) > 1 or nm == "log" and x <= 0:
                raise Skip
            return {"sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "arctan": mp.atan, "arcsin": mp.asin,
                    "arccos": mp.acos, "exp": mp.exp, "log": mp.log}[nm](hp(x))
        try:
            return {"sin": math.sin, "cos": math.cos, "tan": math.tan, "arctan": math.atan, "arcsin": math.asin,
                    "arccos": math.acos, "exp": math.exp, "log": math.log}[nm](float(x))
        except (ValueError, OverflowError):
            raise Skip
    if nm in ("floor", "ceil", "int", "round"):
        x = _n(evalt(t.args[1], env))
        if x in (math.inf, -math.inf):
            raise Skip
        if nm == "round" and len(t.args) > 2:
            if isinstance(x, mpf):
                raise Skip
            return round(x, int(_n(evalt(t.args[2], env))))
        if isinstance(x, (float, mpf)):
            y = x if nm != "round" else x + 0.5
            if abs(y - round(float(y))) < 1e-9:
                raise Skip
        if isinstance(x, mpf):
            return {"floor": lambda v: int(mp.floor(v)), "ceil": lambda v: int(mp.ceil(v)), "int": int,
                    "round": lambda v: int(mp.nint(v))}[nm](x)
        return {"floor": math.floor, "ceil": math.ceil, "int": math.trunc, "round": round}[nm](x)
    if nm in ("floordiv", "mod", "fmod", "arctan2"):
        x, y = _n(evalt(t.args[1], env)), _n(evalt(t.args[2], env))
        try:
            if env.hp:
                x, y = hp(x), hp(y)
                if y == 0 and nm != "arctan2":
                    raise Skip
                return {"floordiv": lambda: mp.floor(x / y), "mod": lambda: x - y * mp.floor(x / y),
                        "fmod": lambda: x - y * (mp.floor(x / y) if x / y > 0 else mp.ceil(x / y)), "arctan2": lambda: mp.atan2(x, y)}[nm]()
            return {"floordiv": lambda: x // y, "mod": lambda: x % y, "fmod": lambda: math.fmod(x, y),
                    "arctan2": lambda: math.atan2(x, y)}[nm]()
        except ZeroDivisionError:
            raise Skip
    return _atom(t, _ckey(t, env), env)


def same(x, y):
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, bool) or isinstance(y, bool):
        return x == y
    if isinstance(x, (int, float, F, mpf)) and isinstance(y, (int, float, F, mpf)):
        if x == y:
            return True
        fx, fy = float(x), float(y)
        if math.isinf(fx) or math.isinf(fy):
            return fx == fy
        return abs(fx - fy) <= 1e-6 * (1 + abs(fx) + abs(fy))
    return x == y


def _bdry(terms, rnd):
    """comparison literals of the terms"""
    out = []
    for t in terms:
        for x in walk(t):
            if x.op in ("lt0", "le0", "eq0"):
                out.append(x)
    return out


SCALE = 1  # more points in the thorough tier


def sample_envs(terms, n, seed, focus=()):
    """random points, half of them on the boundary of comparisons (first those of the focus)"""
    rnd = random.Random(seed)
    lits = _bdry(terms, rnd)
    big = sum(_size(t) for t in terms) > 3000
    n = n if not big else max(12, n // 4)
    for j in range(n + (n // 3 if focus else 0)):
        fixed = {}
        env = Env(seed * 1000 + j, fixed, pos=(j % 3 != 2))
        env.fl = big and j % 4 != 1
        if lits and (j % 2 or j >= n):
            # put the sample on the boundary of a few literals
            if j >= n:
                _force(rnd.choice(focus), env, rnd)
            for _ in range(rnd.choice([1, 1, 2, 3])):
                _force(rnd.choice(lits), env, rnd)
        yield env


def _size(t, _m={}):
    r = _m.get(t)
    if r is None:
        r = _m[t] = sum(len(x.args[0]) if x.op == "poly" else 1 for x in walk(t))
    return r


def _force(lit, env, rnd):
    p = lit.args[0]
    d = topoly(p)
    cand = [m[0][0] for m, c in d.items() if len(m) == 1 and m[0][1] == 1
            and m[0][0].op in ("sym", "sel", "fn", "call")
            and sum(1 for mm in d if any(a is m[0][0] for a, _ in mm)) == 1]
    if not cand:
        return
    x = rnd.choice(cand)
    if x.op == "fn" and x.args[0] not in ("pint", "pfloat"):
        return
    try:
        rest = 0
        c0 = None
        for m, c in d.items():
            if len(m) == 1 and m[0][0] is x:
                c0 = c
                continue
            pr = c
            for a, e in m:
                v = _n(evalt(a, env))
                if e < 0 and v == 0:
                    return
                pr = pr * (F(v) if isinstance(v, int) else v) ** e
            rest += pr
        v = -rest / c0 if isinstance(rest, float) else -F(rest) / c0
        if isinstance(v, float):
            if is_int(x):
                return
            key = _ckey(x, env)
            if key in env.vals and key in env.forced:
                return
            env.memo.clear()
            env.forced.add(key)
            env.names[key] = x
            env.vals[key] = v
            return
        if is_int(x) and v.denominator != 1:
            return
        key = _ckey(x, env)
        if key in env.vals and key in env.forced:
            return
        env.memo.clear()
        env.forced.add(key)
        env.names[key] = x
        env.vals[key] = int(v) if v.denominator == 1 else v
    except Skip:
        return


def differs(a, b, under=TRUE, n=120, seed=1, pre=None):
    """sample description when the two terms differ under the condition; None when no difference shows; 'unk' if nothing could be evaluated"""
    if opaque(a) or opaque(b) or opaque(under):
        return "unk"
    ok = 0
    for env in sample_envs([a, b, under], n * SCALE, seed):
        if pre:
            pre(env)
        try:
            if under is not TRUE and not _b(under, env):
                continue
            x = evalt(a, env)
            y = evalt(b, env)
        except (Skip, OverflowError, ZeroDivisionError, TypeError, RecursionError):
            continue
        ok += 1
        if not same(x, y) and not cancels(a, b, under, env):
            if libs(a) != libs(b):
                return "unk"  # a library routine the analysis does not know may compute the same
            vals = {show(env.names[k]): str(v) for k, v in env.vals.items() if k in env.names}
            return ("differ", _short(x), _short(y), vals)
    return None if ok >= 3 else "unk"


def libs(t):
    """library routines whose value is not modelled"""
    return {x.args[0] for x in walk(t) if x.op == "call" and isinstance(x.args[0], str)
            and (x.args[0].startswith(".") or x.args[0].split(".")[0] in ("numpy", "np", "scipy", "math"))} | {
        x.args[0] for x in walk(t) if x.op == "fn" and x.args[0] in ("max", "min", "sum", "mean", "prod") and len(x.args) > 2}


def cancels(a, b, under, env):
    """does the difference vanish when evaluated with high precision (rounding in ill-conditioned samples)"""
    e2 = Env(env.seed, env.vals, env.pos)
    e2.scale, e2.fl, e2.hp, e2.names = env.scale, env.fl, True, env.names
    try:
        if under is not TRUE and not _b(under, e2):
            return True
        return same(evalt(a, e2), evalt(b, e2))
    except (Skip, OverflowError, ZeroDivisionError, TypeError, ValueError, RecursionError) as ex:
        if DEBUG:
            import traceback
            traceback.print_exc()
        return True


DEBUG = False


def _short(x):
    if isinstance(x, F):
        return "%.6g" % float(x)
    if isinstance(x, float):
        return "%.6g" % x
    return str(x)[:120]
