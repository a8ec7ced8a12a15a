"""Hash-consed value terms in normal form.

Arithmetic is kept as polynomials (rational coefficients, integer exponents
that may be negative) over atoms; comparisons as ``p < 0``, ``p <= 0`` or
``p == 0`` of a normalised polynomial; booleans in negation normal form.
Two expressions that differ only by algebra, naming, operand order or
temporaries get the same term.
"""

from fractions import Fraction as F
import math

_tab = {}
MAXMONO = 6000


class TooBig(Exception):
    pass


class T:
    __slots__ = ("op", "args", "id", "_neg", "_kids", "_free")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_n = [0]


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _n[0] += 1
        t.id = _n[0]
        t._neg = None
        t._kids = None
        t._free = None
        _tab[k] = t
    return t


TRUE = mk("bool", True)
FALSE = mk("bool", False)
NONE = mk("none")


def _c(q):
    """canonical coefficient: int when integral, Fraction otherwise"""
    if type(q) is int:
        return q
    return q.numerator if q.denominator == 1 else q


def _q(a, b):
    """exact quotient"""
    if b == 1:
        return a
    if b == -1:
        return -a
    return _c(F(a) / b)


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if math.isinf(x):
            return mk("inf", 1 if x > 0 else -1)
        if math.isnan(x):
            return mk("nan")
        return mk("num", _c(F(repr(x))))
    return mk("num", _c(F(x)))


ZERO = num(0)
ONE = num(1)


def string(s):
    return mk("str", s)


def is_num(t):
    return t.op == "num"


def val(t):
    return t.args[0]


def is_int_const(t):
    return t.op == "num" and t.args[0].denominator == 1


def is_const(t):
    return t.op in ("num", "str", "bool", "none", "inf", "nan")


# ---------------------------------------------------------------- polynomials
def topoly(t):
    """dict monomial -> coefficient; monomial = tuple((atom, exp), ...) sorted by id."""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "bool":
        return {(): 1} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): 1}


def frompoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return mk("num", _c(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(d) > MAXMONO:
        raise TooBig()
    return mk("poly", tuple(sorted(d.items(), key=_mkey)))


def _mkey(mc):
    return tuple((a.id, e) for a, e in mc[0])


def _paddin(d, e, f=1):
    for m, c in e.items():
        c2 = d.get(m, 0) + (c if f == 1 else c * f)
        if c2:
            d[m] = c2 if type(c2) is int else _c(c2)
        else:
            d.pop(m, None)


def _special(a, e):
    """Rewriting of powers of some atoms; returns None or a polynomial dict."""
    if a.op == "sqrt":
        if e >= 2 or e <= -2:
            k = abs(e) // 2
            base = a.args[0] if e > 0 else power(a.args[0], num(-1))
            r = topoly(power(base, num(k)))
            if e % 2:
                r = _pmul(r, {((a, 1 if e > 0 else -1),): 1})
            return r
    elif a.op == "fn" and a.args[0] == "sin" and e >= 2:
        c = fn("cos", a.args[1])
        b = {(): 1}
        _paddin(b, _pmul({((c, 2),): 1}, {(): 1}), -1)
        r = b
        for _ in range(e // 2 - 1):
            r = _pmul(r, b)
        if e % 2:
            r = _pmul(r, {((a, 1),): 1})
        return r
    elif a.op == "paren" and e > 0:
        return topoly(power(a.args[0], num(e)))
    return None


def _monomul(m1, m2):
    """product of two monomials -> polynomial dict"""
    if not m1:
        return {m2: 1}
    if not m2:
        return {m1: 1}
    ex = {}
    for a, e in m1:
        ex[a] = e
    touched = []
    for a, e in m2:
        if a in ex:
            ex[a] += e
            touched.append(a)
        else:
            ex[a] = e
    extra = None
    for a in touched:
        e = ex[a]
        if e == 0:
            del ex[a]
            continue
        s = _special(a, e)
        if s is not None:
            del ex[a]
            extra = s if extra is None else _pmul(extra, s)
    m = tuple(sorted(ex.items(), key=lambda p: p[0].id))
    if extra is None:
        return {m: 1}
    return _pmul(extra, {m: 1})


def _pmul(p, q):
    if len(p) * len(q) > 40 * MAXMONO:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            _paddin(r, _monomul(m1, m2), c1 * c2)
    return r


def _isseq(t):
    return t.op == "seq"


def seq(elems, kind="list"):
    return mk("seq", kind, tuple(elems))


def elems(t):
    return t.args[1]


_NONARITH = ("str", "none")


def _bcast(f, a, b):
    if _isseq(a) and _isseq(b):
        ea, eb = elems(a), elems(b)
        if len(ea) != len(eb):
            return mk("op", f.__name__, a, b)
        return seq([f(x, y) for x, y in zip(ea, eb)], "array")
    if _isseq(a):
        return seq([f(x, b) for x in elems(a)], "array")
    return seq([f(a, y) for y in elems(b)], "array")


def _arr(t):
    return t.op == "seq" and t.args[0] == "array"


def add(a, b):
    if a.op == "str" and b.op == "str":
        return string(a.args[0] + b.args[0])
    if a.op in ("str", "fmt") or b.op in ("str", "fmt"):
        return fmt([a, b])
    if _isseq(a) or _isseq(b):
        if _isseq(a) and _isseq(b) and not _arr(a) and not _arr(b):
            return seq(elems(a) + elems(b), a.args[0])
        return _bcast(add, a, b)
    if a.op in ("inf", "nan") or b.op in ("inf", "nan"):
        return a if a.op in ("inf", "nan") else b
    d = topoly(a)
    _paddin(d, topoly(b))
    return frompoly(d)


def neg(a):
    if _isseq(a):
        return seq([neg(x) for x in elems(a)], a.args[0])
    if a.op == "inf":
        return mk("inf", -a.args[0])
    return frompoly({m: -c for m, c in topoly(a).items()})


def sub(a, b):
    if _isseq(a) or _isseq(b):
        return _bcast(sub, a, b)
    if b.op in ("inf", "nan"):
        return neg(b)
    if a.op in ("inf", "nan"):
        return a
    d = topoly(a)
    _paddin(d, topoly(b), -1)
    return frompoly(d)


def mul(a, b):
    if _isseq(a) and not _arr(a) and is_int_const(b) and a.args[0] != "array":
        n = int(b.args[0])
        if n * len(elems(a)) <= 64:
            return seq(elems(a) * n, a.args[0])
        return mk("op", "repeat", a, b)
    if _isseq(b) and not _arr(b) and is_int_const(a):
        return mul(b, a)
    if _isseq(a) or _isseq(b):
        return _bcast(mul, a, b)
    if a.op == "inf" or b.op == "inf":
        return a if a.op == "inf" else b
    return frompoly(_pmul(topoly(a), topoly(b)))


def inv(b):
    if _isseq(b):
        return seq([inv(x) for x in elems(b)], "array")
    d = topoly(b)
    if not d:
        return mk("inf", 1)
    if len(d) == 1:
        (m, c), = d.items()
        r = {(): _q(1, c)}
        for a, e in m:
            s = _special(a, -e) if a.op != "fn" else None
            r = _pmul(r, s if s is not None else {((a, -e),): 1})
        return frompoly(r)
    # common monomial content and leading coefficient
    items = sorted(d.items(), key=_mkey)
    lead = items[0][1]
    common = dict(items[0][0])
    for m, _ in items[1:]:
        mm = dict(m)
        for a in list(common):
            if a in mm and (mm[a] > 0) == (common[a] > 0):
                common[a] = min(common[a], mm[a], key=abs)
            else:
                del common[a]
    cm = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda p: p[0].id))
    body = frompoly(_pmul({m: _q(c, lead) for m, c in d.items()}, {cm: 1}))
    if body.op != "poly":
        return mul(frompoly({cm: _q(1, lead)}), inv(body))
    return frompoly(_pmul({cm: _q(1, lead)}, {((mk("paren", body), -1),): 1}))


def div(a, b):
    if _isseq(a) or _isseq(b):
        return _bcast(div, a, b)
    if a is b and a.op != "num":
        return ONE
    if b.op == "poly" and a.op == "poly" and len(a.args[0]) == len(b.args[0]):
        (m1, c1), (m2, c2) = a.args[0][0], b.args[0][0]
        if m1 == m2 and frompoly({m: _q(c * c1, c2) for m, c in b.args[0]}) is a:
            return mk("num", _q(c1, c2))
    if a.op == "inf":
        return a
    if b.op == "inf":
        return ZERO
    return mul(a, inv(b))


def power(a, b):
    if _isseq(a):
        return seq([power(x, b) for x in elems(a)], "array")
    if b.op == "num":
        e = b.args[0]
        if e.denominator == 1:
            n = int(e)
            if n == 0:
                return ONE
            base = a if n > 0 else inv(a)
            n = abs(n)
            d = topoly(base)
            if n > (64 if len(d) == 1 else 12):
                return mk("pow", a, b)
            if len(d) == 1:
                r = {(): 1}
                for _ in range(n):
                    r = _pmul(r, d)
                return frompoly(r)
            r = d
            for _ in range(n - 1):
                r = _pmul(r, d)
            return frompoly(r)
        if e == F(1, 2):
            return sqrt(a)
        if e == F(-1, 2):
            return inv(sqrt(a))
    return mk("pow", a, b)


def sqrt(a):
    if _isseq(a):
        return seq([sqrt(x) for x in elems(a)], "array")
    if a.op == "num":
        v = a.args[0]
        if v >= 0:
            n, m = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and m * m == v.denominator:
                return mk("num", _c(F(n, m)))
        return mk("sqrt", a)
    d = topoly(a)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            r = sqrt(mk("num", c))
            for at, e in m:
                r = mul(r, power(absval(at), num(e // 2)))
            return r
    return mk("sqrt", a)


# ---------------------------------------------------------------- functions
def fn(name, *a):
    if len(a) == 1 and _isseq(a[0]) and name in _ELEMWISE:
        return seq([fn(name, x) for x in elems(a[0])], a[0].args[0])
    if name in ("sin", "cos", "tan", "arctan", "arcsin") and len(a) == 1:
        if a[0] is ZERO:
            return ONE if name == "cos" else ZERO
        if _leadneg(a[0]):
            r = mk("fn", name, neg(a[0]))
            return r if name == "cos" else neg(r)
    return mk("fn", name, *a)


_ELEMWISE = {"sin", "cos", "tan", "arctan", "arcsin", "arccos", "floor", "ceil", "round", "int", "exp", "log"}


def _leadneg(t):
    d = topoly(t)
    if not d:
        return False
    return sorted(d.items(), key=_mkey)[0][1] < 0


def smax(*a):
    return _mm("max", a)


def smin(*a):
    return _mm("min", a)


def _mm(op, a):
    s = []
    for x in a:
        if x.op == op:
            s.extend(x.args)
        else:
            s.append(x)
    s = sorted(set(s), key=lambda t: t.id)
    nums = [x for x in s if is_num(x)]
    if len(nums) > 1:
        k = max(nums, key=val) if op == "max" else min(nums, key=val)
        s = [x for x in s if not is_num(x)] + [k]
        s.sort(key=lambda t: t.id)
    if len(s) == 1:
        return s[0]
    return mk(op, *s)


def absval(a):
    if _isseq(a):
        return seq([absval(x) for x in elems(a)], a.args[0])
    if a.op == "num":
        return mk("num", abs(a.args[0]))
    if a.op in ("sqrt",):
        return a
    return _mm("max", (a, neg(a)))


def fmt(parts):
    s = []
    for p in parts:
        if p.op == "fmt":
            s.extend(p.args)
        else:
            s.append(p)
    r = []
    for p in s:
        if p.op == "str" and r and r[-1].op == "str":
            r[-1] = string(r[-1].args[0] + p.args[0])
        elif p.op == "str" and p.args[0] == "":
            continue
        else:
            r.append(p)
    if not r:
        return string("")
    if len(r) == 1 and r[0].op == "str":
        return r[0]
    return mk("fmt", *r)


# ---------------------------------------------------------------- comparisons
INTS = set()  # atoms known to be integers
INTNAMES = set()  # record fields declared as integers
NUMNAMES = set()  # fields declared as numbers
INTARRAYS = set()  # record fields declared as arrays of integers


def is_int(t):
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op == "poly":
        return all(c.denominator == 1 and all(is_int(a) and e > 0 for a, e in m)
                   for m, c in t.args[0])
    if t.op in ("len", "idx"):
        return True
    if t.op == "sel" and t.args[1].op == "str":
        return t.args[1].args[0] in INTNAMES or t in INTS
    if t.op == "sel" and t.args[0].op == "sel" and t.args[0].args[1].op == "str" and t.args[0].args[1].args[0] in INTARRAYS and t.args[1].op in ("num", "sym", "poly", "idx", "mu", "sel"):
        return True
    if t.op == "fn" and t.args[0] in ("int", "floordiv"):
        return True
    if t.op == "phi":
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op in ("max", "min"):
        return all(is_int(x) for x in t.args)
    return t in INTS


def _norm(d):
    """scale a polynomial so that the leading coefficient has absolute value 1"""
    c = abs(sorted(d.items(), key=_mkey)[0][1])
    return {m: _q(v, c) for m, v in d.items()} if c != 1 else d


def _cmp0(op, a):
    d = topoly(a)
    if not d:
        return TRUE if op in ("le0", "eq0") else FALSE
    if len(d) == 1 and () in d:
        v = d[()]
        return TRUE if {"lt0": v < 0, "le0": v <= 0, "eq0": v == 0}[op] else FALSE
    if op == "lt0" and is_int(a):
        # integers: p < 0  <=>  p + 1 <= 0
        d = dict(d)
        _paddin(d, {(): 1})
        return _cmp0("le0", frompoly(d))
    if op == "lt0" or op == "le0":
        # drop the constant's scaling but keep sign
        isint = is_int(a)
        n = d if isint else _norm(d)
        if isint:
            n = _intnorm(d, op)
        t = frompoly(n)
        t2 = _dist(op, t)
        return t2 if t2 is not None else mk(op, t)
    n = _norm(d)
    if _leadneg(frompoly(n)):
        n = {m: -c for m, c in n.items()}
    t = frompoly(n)
    t2 = _dist(op, t)
    return t2 if t2 is not None else mk("eq0", t)


def _intnorm(d, op):
    g = 0
    for m, c in d.items():
        if m:
            g = math.gcd(g, abs(int(c)))
    if g > 1:
        d = dict(d)
        k = d.pop((), 0)
        d = {m: _q(c, g) for m, c in d.items()}
        # g*p + k <= 0  <=>  p <= floor(-k/g)  <=> p - floor(-k/g) <= 0
        kk = -((-k) // g)
        if kk:
            d[()] = int(kk)
    return d


def _dist(op, t):
    """comparison distributes over one phi atom of the polynomial"""
    d = topoly(t)
    ph = None
    for m in d:
        for a, e in m:
            if a.op == "phi":
                if ph is not None and ph is not a:
                    return None
                ph = a
                if e != 1 or len(m) != 1:
                    return None
    if ph is None:
        return None
    c = d[((ph, 1),)]
    rest = dict(d)
    del rest[((ph, 1),)]
    r = frompoly(rest)
    x, y = (_cmp0(op, add(r, mul(mk("num", c), b))) for b in ph.args[1:])
    return or_(and_(ph.args[0], x), and_(not_(ph.args[0]), y))


def _num_like(t):
    return t.op not in ("str", "none", "obj", "seq", "fmt", "cls", "func", "rec")


def lt(a, b):
    if a.op == "inf" or b.op == "inf":
        return _infcmp(a, b)
    if _isseq(a) or _isseq(b):
        return mk("vcmp", "lt", a, b) if not (_isseq(a) or _isseq(b)) else _bcast(lt, a, b)
    return _cmp0("lt0", sub(a, b))


def _infcmp(a, b):
    if a.op == "inf" and b.op == "inf":
        return num(a.args[0] < b.args[0])
    if a.op == "inf":
        return num(a.args[0] < 0)
    return num(b.args[0] > 0)


def le(a, b):
    if a.op == "inf" or b.op == "inf":
        return _infcmp(a, b)
    if _isseq(a) or _isseq(b):
        return _bcast(le, a, b)
    return _cmp0("le0", sub(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == "num" and b.op == "num":
            return num(a.args[0] == b.args[0])
        if {a.op, b.op} == {"bool", "num"}:
            return num(int(a.args[0]) == b.args[0]) if a.op == "bool" else eq(b, a)
        return FALSE
    if a.op == "seq" and b.op == "seq":
        if len(elems(a)) != len(elems(b)):
            return FALSE
        if a.args[0] != "array" and b.args[0] != "array":
            return and_(*[eq(x, y) for x, y in zip(elems(a), elems(b))])
        return _bcast(eq, a, b)
    if a.op == "bool" or b.op == "bool":
        if b.op == "bool":
            a, b = b, a
        if isbool(b):
            return b if a is TRUE else not_(b)
        if b.op == "poly" or is_num(b):
            return eq(ONE if a is TRUE else ZERO, b)
        return mk("eq", *sorted((a, b), key=lambda t: t.id))
    if a.op == "phi" and not _num_like(b):
        return or_(and_(a.args[0], eq(a.args[1], b)), and_(not_(a.args[0]), eq(a.args[2], b)))
    if b.op == "phi" and not _num_like(a):
        return eq(b, a)
    if (a.op == "obj" and b.op in ("none", "num", "str")) or (b.op == "obj" and a.op in ("none", "num", "str")):
        return FALSE
    if (a.op in ("seq", "rec") or a in GLOBREC) and b.op == "none" or (b.op in ("seq", "rec") or b in GLOBREC) and a.op == "none":
        return FALSE
    if not _num_like(a) or not _num_like(b) or a.op == "inf" or b.op == "inf":
        return mk("eq", *sorted((a, b), key=lambda t: t.id))
    if isbool(a) and isbool(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return _cmp0("eq0", sub(a, b))


# ---------------------------------------------------------------- booleans
_BOOLOPS = {"bool", "lt0", "le0", "eq0", "and", "or", "not", "eq", "ex", "isinst", "in", "truth", "exc"}


def isbool(t):
    return t.op in _BOOLOPS or (t.op == "phi" and isbool(t.args[1]) and isbool(t.args[2]))


def not_(t):
    if t._neg is None:
        t._neg = _not(t)
        if t._neg._neg is None:
            t._neg._neg = t
    return t._neg


def _not(t):
    o = t.op
    if o == "bool":
        return FALSE if t.args[0] else TRUE
    if o == "not":
        return t.args[0]
    if o == "and":
        return or_(*[not_(x) for x in t.args])
    if o == "or":
        return and_(*[not_(x) for x in t.args])
    if o == "lt0":
        return _cmp0("le0", neg(t.args[0]))
    if o == "le0":
        return _cmp0("lt0", neg(t.args[0]))
    if o == "phi":
        return phi(t.args[0], not_(t.args[1]), not_(t.args[2]))
    if o == "none":
        return TRUE
    if o == "num":
        return num(t.args[0] == 0)
    return mk("not", t)


def truth(t):
    """boolean value of an arbitrary term"""
    if isbool(t) or t.op == "not":
        return t
    if t.op == "num":
        return num(t.args[0] != 0)
    if t.op == "str":
        return num(bool(t.args[0]))
    if t.op == "none":
        return FALSE
    if t.op == "seq":
        return num(len(elems(t)) > 0)
    if t.op == "phi":
        return or_(and_(t.args[0], truth(t.args[1])), and_(not_(t.args[0]), truth(t.args[2])))
    if t.op in ("poly", "len", "idx", "max", "min"):
        return not_(eq(t, ZERO))
    if t.op == "sel" and t.args[1].op == "str" and t.args[1].args[0] in NUMNAMES:
        return not_(eq(t, ZERO))
    return mk("truth", t)


_shp = {}


def _shape(t):
    """monomials (without constant) of a comparison literal, None for other literals"""
    r = _shp.get(t)
    if r is None:
        x = t.args[0] if t.op == "not" else t
        if x.op in ("lt0", "le0", "eq0"):
            p = x.args[0]
            r = tuple(m for m, _ in p.args[0] if m) if p.op == "poly" else (((p, 1),),)
        else:
            r = (x.op, x.args[0]) if x.op in () else (x.op,)
        _shp[t] = r
    return r


_imp = {}


def imp_lit(a, b):
    """does literal a imply literal b (both not and/or)?  True / False / None"""
    if a is b:
        return True
    if not_(a) is b:
        return False
    if _shape(a) != _shape(b):
        return None
    k = (a, b)
    r = _imp.get(k, 0)
    if r == 0:
        r = _imp[k] = _imp_lit(a, b)
    return r


def _imp_lit(a, b):
    if a.op in ("lt0", "le0", "eq0") and b.op in ("lt0", "le0", "eq0", "not"):
        bb, negb = (b.args[0], True) if b.op == "not" else (b, False)
        if bb.op not in ("lt0", "le0", "eq0"):
            return None
        if negb:
            # not eq0(q)
            q = bb.args[0]
            d = sub(a.args[0], q)
            if is_num(d):
                # a: p op 0 with p = q + d
                v = d.args[0]
                if a.op == "eq0":
                    return v != 0
                # p<0 => q < -v ; q != 0 if -v <= 0
                if a.op == "lt0" and v >= 0:
                    return True
                if a.op == "le0" and v > 0:
                    return True
            d = add(a.args[0], q)
            if is_num(d):
                v = d.args[0]
                # p = -q + v ; p<0 => q > v
                if a.op == "eq0":
                    return v != 0
                if a.op == "lt0" and v >= 0:
                    return True
                if a.op == "le0" and v > 0:
                    return True
            return None
        q = bb.args[0]
        d = sub(q, a.args[0])
        if is_num(d):
            v = d.args[0]  # q = p + v
            if a.op == "eq0":
                return {"lt0": v < 0, "le0": v <= 0, "eq0": v == 0}[bb.op]
            if bb.op == "eq0":
                # p<0 -> q = p+v ; q==0 impossible when v<=0
                if a.op == "lt0" and v <= 0 or a.op == "le0" and v < 0:
                    return False
                return None
            if a.op == "lt0":
                return True if v <= 0 else None
            if a.op == "le0":
                if v < 0 or (v == 0 and bb.op == "le0"):
                    return True
                return None
        d = add(q, a.args[0])
        if is_num(d):
            v = d.args[0]  # q = -p + v
            if a.op == "eq0":
                return {"lt0": v < 0, "le0": v <= 0, "eq0": v == 0}[bb.op]
            # p<0 -> q > v
            if bb.op == "eq0":
                if v > 0 or (v == 0 and a.op == "lt0"):
                    return False
                return None
            if a.op == "lt0" and v >= 0:
                return False
            if a.op == "le0":
                if v > 0 or (v == 0 and bb.op == "lt0"):
                    return False
        return None
    if a.op == "not" and a.args[0].op == "eq0" and b.op in ("lt0", "le0"):
        return None
    if a.op == "eq" and b.op == "eq" and a is not b:
        # same subject equal to two different constants
        for x in a.args:
            if x in b.args:
                o1 = a.args[1] if a.args[0] is x else a.args[0]
                o2 = b.args[1] if b.args[0] is x else b.args[0]
                if is_const(o1) and is_const(o2) and o1 is not o2:
                    return False
    if a.op == "eq" and b.op == "not" and b.args[0].op == "eq":
        r = imp_lit(a, b.args[0])
        if r is False:
            return True
        if r is True:
            return False
    return None


def _lits(t):
    return t.args if t.op == "and" else (t,)


def _disj(t):
    return t.args if t.op == "or" else (t,)


def and_(*ts):
    return _ac("and", ts)


def or_(*ts):
    return not_(_ac("and", [not_(t) for t in ts])) if False else _ac("or", ts)


_acmemo = {}


def _ac(op, ts):
    zero, unit = (FALSE, TRUE) if op == "and" else (TRUE, FALSE)
    flat = []
    for t in ts:
        if not isinstance(t, T):
            raise TypeError(t)
        if not isbool(t):
            t = truth(t)
        if t.op == op:
            flat.extend(t.args)
        elif t is zero:
            return zero
        elif t is unit:
            continue
        else:
            flat.append(t)
    s = sorted(set(flat), key=lambda t: t.id)
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    key = (op, tuple(s))
    r = _acmemo.get(key)
    if r is None:
        r = _acmemo[key] = _acsimp(op, s, zero, unit)
    return r


def _acsimp(op, s, zero, unit):
    ss = set(s)
    for t in s:
        if not_(t) in ss:
            return zero
    other = "or" if op == "and" else "and"
    if len(s) > 60:
        return mk(op, *s)
    # literals
    lits = [t for t in s if t.op != other]
    comps = [t for t in s if t.op == other]
    # entailment among literals: in 'and', drop b if some a implies b; in 'or' drop a
    drop = set()
    byshape = {}
    for a in lits:
        byshape.setdefault(_shape(a), []).append(a)
    for i, a in enumerate(lits):
        grp = byshape[_shape(a)]
        if len(grp) == 1:
            continue
        for b in grp:
            if a is b or b in drop or a in drop:
                continue
            r = imp_lit(a, b)
            if op == "and":
                if r is True:
                    drop.add(b)
                elif r is False:
                    return zero
            else:
                if r is True:
                    drop.add(a)
                elif imp_lit(not_(a), b) is True:
                    return zero
    if op == "and":
        # p<=0 and p>=0  => p==0
        for a in lits:
            if a.op == "le0" and a not in drop:
                o = _cmp0("le0", neg(a.args[0]))
                if o in ss and o is not a and o not in drop:
                    drop.add(a)
                    drop.add(o)
                    return _ac(op, [x for x in s if x not in drop] + [_cmp0("eq0", a.args[0])])
                # p<=0 and p!=0 => p<0
                ne = not_(_cmp0("eq0", a.args[0]))
                if ne in ss:
                    return _ac(op, [x for x in s if x is not a and x is not ne]
                               + [_cmp0("lt0", a.args[0])])
    else:
        for a in lits:
            if a.op == "lt0" and a not in drop:
                e = _cmp0("eq0", a.args[0])
                if e in ss:
                    return _ac(op, [x for x in s if x is not a and x is not e]
                               + [_cmp0("le0", a.args[0])])
    lits = [t for t in lits if t not in drop]
    ls = set(lits)
    # unit propagation of literals into composite terms, absorption
    out = []
    changed = bool(drop)
    for c in comps:
        parts = []
        dead = False
        for p in c.args:
            if p in ls:
                dead = True  # absorption
                break
            if not_(p) in ls:
                changed = True
                continue
            skip = False
            if p.op in ("and", "or"):
                parts.append(p)
                continue
            for a in byshape.get(_shape(p), ()):
                if a in drop:
                    continue
                r = imp_lit(a, p) if op == "and" else None
                if op == "and":
                    if r is True:
                        dead = True
                        break
                    if r is False:
                        skip = True
                        break
                else:
                    r = imp_lit(not_(a), p)
                    # or: a or (p and q): under not a, p true -> drop p ; p false -> dead
                    if r is True:
                        skip = True
                        break
                    if r is False:
                        dead = True
                        break
            if dead:
                break
            if skip:
                changed = True
                continue
            parts.append(p)
        if dead:
            changed = True
            continue
        if len(parts) != len(c.args):
            out.append(_ac(other, parts))
            changed = True
        else:
            out.append(c)
    if changed:
        return _ac(op, lits + out)
    # absorption between composites
    keep = []
    for i, c in enumerate(out):
        cs = set(c.args)
        if any(d is not c and set(d.args) <= cs and (set(d.args) != cs) for d in out):
            continue
        keep.append(c)
    if len(keep) != len(out):
        return _ac(op, lits + keep)
    # factoring / resolution between two composites
    n = len(keep)
    if 1 < n <= 12:
        for i in range(n):
            for j in range(i + 1, n):
                a, b = set(keep[i].args), set(keep[j].args)
                common = a & b
                if not common:
                    continue
                ra, rb = a - b, b - a
                x = _ac(other, list(common) + [_ac(op, [_ac(other, list(ra)), _ac(other, list(rb))])])
                inner = _ac(op, [_ac(other, list(ra)), _ac(other, list(rb))])
                if inner is zero or inner is unit or len(common) >= 1 and op == "or":
                    rest = lits + keep[:i] + keep[i + 1:j] + keep[j + 1:]
                    return _ac(op, rest + [x])
    # resolution literal/composite:  or(c, and(not c, x)) handled above by propagation
    s = sorted(set(lits + keep), key=lambda t: t.id)
    if len(s) == 1:
        return s[0]
    return mk(op, *s)


def implies(g, t, depth=6):
    """does g entail t (propositionally, with literal implication)?"""
    if t is TRUE or g is FALSE or g is t:
        return True
    if t is FALSE:
        return unsat(g, depth)
    if t.op == "and":
        return all(implies(g, x, depth) for x in t.args)
    return unsat(and_(g, not_(t)), depth)


_uns = {}


def unsat(g, depth=6):
    if g is FALSE:
        return True
    if g.op not in ("and", "or"):
        return False
    k = (g, depth)
    r = _uns.get(k)
    if r is None:
        r = _uns[k] = _unsat(g, depth)
    return r


def _unsat(g, depth):
    if g.op == "or":
        return depth > 0 and all(unsat(x, depth - 1) for x in g.args)
    if _fm(g):
        return True
    if depth <= 0:
        return False
    ors = [x for x in g.args if x.op == "or"]
    if not ors:
        return False
    ors.sort(key=lambda t: len(t.args))
    o = ors[0]
    if len(o.args) > 6:
        return False
    rest = [x for x in g.args if x is not o]
    return all(unsat(and_(p, *rest), depth - 1) for p in o.args)


_lin = {}


def _linform(x):
    r = _lin.get(x)
    if r is None:
        d = topoly(x.args[0])
        c = d.pop((), 0)
        r = _lin[x] = (d, c)
    return r


def _fm(g):
    """combination of up to three linear inequalities that is a contradiction"""
    L = []
    for x in g.args:
        if x.op == "le0":
            L.append(_linform(x) + (False,))
        elif x.op == "lt0":
            L.append(_linform(x) + (True,))
        elif x.op == "eq0":
            d, c = _linform(x)
            L.append((d, c, False))
            L.append(({m: -v for m, v in d.items()}, -c, False))
            for s in {abs(v) for v in d.values()} - {1}:
                L.append(({m: _q(v, s) for m, v in d.items()}, _q(c, s), False))
                L.append(({m: _q(-v, s) for m, v in d.items()}, _q(-c, s), False))
    if len(L) < 2 or len(L) > 40:
        return False
    L = [x for x in L if len(x[0]) <= 8]
    n = len(L)

    def comb(p, q):
        """sum cancelling at least one monomial, else None"""
        d, e = p[0], q[0]
        if len(d) > len(e):
            d, e = e, d
        hit = False
        for m, v in d.items():
            w = e.get(m)
            if w is not None and w == -v:
                hit = True
                break
        if not hit:
            return None
        r = dict(p[0])
        for m, v in q[0].items():
            w = r.get(m, 0) + v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return (r, p[1] + q[1], p[2] or q[2])

    def bad(p):
        return not p[0] and (p[1] > 0 or (p[2] and p[1] >= 0))

    sums = []
    for i in range(n):
        for j in range(i + 1, n):
            p = comb(L[i], L[j])
            if p is None:
                continue
            if bad(p):
                return True
            if len(p[0]) <= max(len(L[i][0]), len(L[j][0])):
                sums.append(p)
    for p in sums[:60]:
        for q in L:
            r = comb(p, q)
            if r is not None and bad(r):
                return True
    return False


# ---------------------------------------------------------------- phi
def phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isbool(a) and isbool(b):
        return or_(and_(c, a), and_(not_(c), b))
    nc = not_(c)
    if nc.id < c.id:
        c, a, b = nc, b, a
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if c.op in ("lt0", "le0") and _num_like(a) and _num_like(b):
        d = sub(a, b)
        p = c.args[0]
        if d is p:
            return smin(a, b)
        if d is neg(p):
            return smax(a, b)
        if d.op == "poly" and p.op == "poly" and len(d.args[0]) == len(p.args[0]) and d.args[0][0][0] == p.args[0][0][0]:
            k = _q(d.args[0][0][1], p.args[0][0][1])
            if mul(mk("num", k), p) is d:
                return smin(a, b) if k > 0 else smax(a, b)
    if a.op == "seq" and b.op == "seq" and len(elems(a)) == len(elems(b)) and a.args[0] == b.args[0]:
        return seq([phi(c, x, y) for x, y in zip(elems(a), elems(b))], a.args[0])
    if b.op == "phi" and b.args[1] is a:
        return phi(or_(c, b.args[0]), a, b.args[2])
    if b.op == "phi" and b.args[2] is a:
        return phi(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == "phi" and a.args[2] is b:
        return phi(and_(c, a.args[0]), a.args[1], b)
    if a.op == "phi" and a.args[1] is b:
        return phi(and_(c, not_(a.args[0])), a.args[2], b)
    return mk("phi", c, a, b)


_asm = {}


def assume(t, c, v, depth=5):
    """simplify t knowing that condition c has value v"""
    if is_const(t) or t.op in ("sym", "obj", "idx"):
        return t
    if depth <= 0:
        return t
    k = (t, c, v)
    r = _asm.get(k)
    if r is not None:
        return r
    cc = c if v else not_(c)
    r = _assume(t, cc, depth)
    _asm[k] = r
    return r


def _assume(t, cc, depth):
    if t.op == "phi":
        tc = t.args[0]
        w = decide(cc, tc)
        if w is True:
            return assume(t.args[1], cc, True, depth - 1)
        if w is False:
            return assume(t.args[2], cc, True, depth - 1)
        a = assume(t.args[1], cc, True, depth - 1)
        b = assume(t.args[2], cc, True, depth - 1)
        if a is not t.args[1] or b is not t.args[2]:
            return phi(tc, a, b)
        return t
    if isbool(t):
        w = decide(cc, t)
        if w is True:
            return TRUE
        if w is False:
            return FALSE
        if t.op in ("and", "or"):
            n = [assume(x, cc, True, depth - 1) for x in t.args]
            if any(x is not y for x, y in zip(n, t.args)):
                return _ac(t.op, n)
        return t
    if t.op == "seq":
        n = [assume(x, cc, True, depth - 1) for x in elems(t)]
        if any(x is not y for x, y in zip(n, elems(t))):
            return seq(n, t.args[0])
        return t
    if t.op == "poly":
        d = t.args[0]
        if len(d) <= 6 and any(a.op in ("phi", "max", "min") for m, _ in d for a, _ in m):
            return subst_map(t, lambda a: assume(a, cc, True, depth - 1)
                             if a.op == "phi" else (_mmassume(a, cc) if a.op in ("max", "min") else a))
    if t.op in ("max", "min"):
        return _mmassume(t, cc)
    return t


def _mmassume(t, cc):
    if len(t.args) == 2:
        a, b = t.args
        w = decide(cc, le(a, b))
        if w is None:
            w2 = decide(cc, le(b, a))
            if w2 is True:
                w = False
        if w is True:
            return b if t.op == "max" else a
        if w is False:
            return a if t.op == "max" else b
    return t


_dec = {}


def decide(cc, t):
    """value of boolean t under assumption cc (quick)"""
    if t is cc:
        return True
    if t is not_(cc):
        return False
    if cc.op not in ("and", "or") and t.op not in ("and", "or"):
        return imp_lit(cc, t)
    k = (cc, t)
    r = _dec.get(k, 0)
    if r == 0:
        r = _dec[k] = _decide(cc, t)
    return r


def _decide(cc, t):
    if t.op == "and":
        un = False
        for x in t.args:
            r = decide(cc, x)
            if r is False:
                return False
            if r is None:
                un = True
        return None if un else True
    if t.op == "or":
        un = False
        for x in t.args:
            r = decide(cc, x)
            if r is True:
                return True
            if r is None:
                un = True
        return None if un else False
    if cc.op == "and":
        sh = _shape(t)
        for x in cc.args:
            if x.op in ("and", "or"):
                if x is t:
                    return True
                continue
            if _shape(x) != sh:
                continue
            r = imp_lit(x, t)
            if r is not None:
                return r
        return None
    if cc.op == "or":
        if len(cc.args) > 6:
            return None
        first = decide(cc.args[0], t)
        if first is None:
            return None
        for x in cc.args[1:]:
            if decide(x, t) is not first:
                return None
        return first
    return imp_lit(cc, t)


# ---------------------------------------------------------------- traversal
def kids(t):
    if t._kids is None:
        ks = []
        if t.op == "poly":
            for m, _ in t.args[0]:
                for a, _e in m:
                    ks.append(a)
        else:
            st = list(t.args)
            while st:
                a = st.pop()
                if isinstance(a, T):
                    ks.append(a)
                elif isinstance(a, tuple):
                    st.extend(a)
        t._kids = tuple(ks)
    return t._kids


def walk(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def mentions(t, x):
    return contains(t, lambda y: y is x)


def subst_map(t, f):
    """rebuild polynomial t with atoms mapped by f"""
    r = ZERO
    for m, c in topoly(t).items():
        p = mk("num", c)
        for a, e in m:
            p = mul(p, power(f(a), num(e)))
        r = add(r, p)
    return r


_sub = {}


def subst(t, mp):
    """replace terms (dict T->T), rebuilding normal forms"""
    memo = {}

    def go(t):
        r = mp.get(t)
        if r is not None:
            return r
        if not kids(t):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = rebuild(t, go)
        memo[t] = r
        return r

    return go(t)


def rebuild(t, go):
    ks = kids(t)
    ns = [go(k) for k in ks]
    if all(a is b for a, b in zip(ks, ns)):
        return t
    o, a = t.op, t.args
    if o == "poly":
        return subst_map(t, go)
    if o in ("lt0", "le0", "eq0"):
        x = go(a[0])
        return _cmp0(o, x) if not _isseq(x) else mk(o, x)
    if o == "and" or o == "or":
        return _ac(o, [go(x) for x in a])
    if o == "not":
        return not_(truth(go(a[0])))
    if o == "truth":
        return truth(go(a[0]))
    if o == "phi":
        return phi(truth(go(a[0])), go(a[1]), go(a[2]))
    if o in ("max", "min"):
        return _mm(o, [go(x) for x in a])
    if o == "sqrt":
        return sqrt(go(a[0]))
    if o == "paren":
        return go(a[0])
    if o == "pow":
        return power(go(a[0]), go(a[1]))
    if o == "fn":
        return fn(a[0], *[go(x) if isinstance(x, T) else x for x in a[1:]])
    if o == "eq":
        return eq(go(a[0]), go(a[1]))
    if o == "seq":
        return seq([go(x) for x in a[1]], a[0])
    if o == "sel":
        return sel(go(a[0]), go(a[1]))
    if o == "fmt":
        return fmt([go(x) for x in a])
    if o == "len":
        return length(go(a[0]))

    def g2(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(g2(y) for y in x)
        return x

    return mk(o, *[g2(x) for x in a])


def length(t):
    if t.op == "seq":
        return num(len(elems(t)))
    if t.op == "str":
        return num(len(t.args[0]))
    if t.op == "phi":
        return phi(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == "comp" and t.args[4] is TRUE:  # unfiltered comprehension over a domain
        return sub(t.args[2], t.args[1])
    if t.op == "fill":
        return t.args[1] if not (t.args[1].op == "seq") else elems(t.args[1])[0]
    return mk("len", t)


GLOBREC = {}  # constant record arrays: glob term -> {field: value}


def sel(b, k):
    """value of field/element k of value term b"""
    if b.op == "glob" and k.op == "str" and b in GLOBREC:
        v = GLOBREC[b].get(k.args[0])
        if v is not None:
            return v
    if b.op == "seq" and is_int_const(k):
        e = elems(b)
        i = int(k.args[0])
        if -len(e) <= i < len(e):
            return e[i]
    if b.op == "rec" and k.op == "str":
        for f, v in b.args[1]:
            if f == k.args[0]:
                return v
    if b.op == "phi":
        return phi(b.args[0], sel(b.args[1], k), sel(b.args[2], k))
    if b.op == "fn" and b.args[0] in ("max", "min", "sum", "mean") and len(b.args) == 3 and isinstance(b.args[1], T) and b.args[1].op == "seq" and is_int_const(k) and \
            (b.args[2] is ZERO or b.args[2].op == "kwarg" and b.args[2].args == ("axis", ZERO)):
        # the extremes of the columns of explicit rows
        v = [sel(x, k) for x in elems(b.args[1])]
        if v and b.args[0] in ("max", "min"):
            return (smax if b.args[0] == "max" else smin)(*v)
        if v:
            r = ZERO
            for x in v:
                r = add(r, x)
            return r if b.args[0] == "sum" else div(r, num(len(v)))
    if b.op == "fill":
        sh = b.args[1]
        if sh.op != "seq" or len(elems(sh)) == 1:
            return b.args[0]
        if k.op != "slice":
            r = elems(sh)[1:]
            return mk("fill", b.args[0], seq(r, "tuple") if len(r) > 1 else r[0])
    if b.op == "comp" and b.args[4] is TRUE and k.op not in ("slice", "str"):
        # comp(idx, lo, hi, val, guard)
        return subst(b.args[3], {b.args[0]: add(b.args[1], k)})
    if b.op == "snap":
        r = sel(b.args[0], k)
        for kk, v in b.args[1]:
            c = keyeq(kk, k)
            if c is TRUE:
                r = v
            elif c is FALSE:
                continue
            else:
                r = phi(c, v, r)
        return r
    if b.op == "cp" and k.op == "str":
        return sel(b.args[0], k)
    return mk("sel", b, k)


def keyeq(a, b):
    if a is b:
        return TRUE
    if a.op == "str" or b.op == "str":
        if a.op == "str" and b.op == "str":
            return FALSE
        if a.op in ("num", "poly", "idx") or b.op in ("num", "poly", "idx"):
            return FALSE
    if "slice" in (a.op, b.op) or "mkey" in (a.op, b.op):
        return mk("in", a, b)
    return eq(a, b)


def ratzero(t, limit=40):
    """is the rational expression t identically zero?"""
    for _ in range(limit):
        d = topoly(t)
        if not d:
            return True
        worst = {}
        for m in d:
            for a, e in m:
                if e < 0:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            # rational sub-expressions inside sqrt/functions stay atoms
            return False
        for a, e in worst.items():
            f = a.args[0] if a.op == "paren" else a
            # multiply every monomial
            new = {}
            for m, c in d.items():
                ex = dict(m)
                have = ex.pop(a, 0)
                mm = tuple(sorted(ex.items(), key=lambda p: p[0].id))
                k = have - e
                p = {mm: c}
                if k:
                    p = _pmul(p, topoly(power(f, num(k))))
                _paddin(new, p)
            d = new
            break
        t = frompoly(d)
    return False


def req(a, b):
    """equality of two numeric terms as rational expressions"""
    if a is b:
        return True
    if a.op == "seq" and b.op == "seq":
        return len(elems(a)) == len(elems(b)) and all(req(x, y) for x, y in zip(elems(a), elems(b)))
    if not _num_like(a) or not _num_like(b) or isbool(a) or isbool(b):
        return False
    if a.op in ("inf", "nan", "none") or b.op in ("inf", "nan"):
        return False
    try:
        return ratzero(sub(a, b))
    except TooBig:
        return False


# ---------------------------------------------------------------- case split equality
def conds(t, out=None, depth=30):
    """conditions of phi nodes inside t"""
    s = []
    for x in walk(t):
        if x.op == "phi":
            s.append(x.args[0])
        elif x.op in ("max", "min") and len(x.args) == 2:
            s.append(le(x.args[0], x.args[1]))
    return s


def deep_assume(t, cc):
    """replace everywhere the conditions decided by cc"""
    memo = {}

    def go(x):
        if is_const(x) or not kids(x):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "phi":
            w = decide(cc, x.args[0])
            if w is None:
                c2 = go(x.args[0])
                w = True if c2 is TRUE else False if c2 is FALSE else None
            if w is True:
                r = go(x.args[1])
            elif w is False:
                r = go(x.args[2])
            else:
                r = rebuild(x, go)
        elif isbool(x):
            w = decide(cc, x)
            r = TRUE if w is True else FALSE if w is False else rebuild(x, go)
        elif x.op in ("max", "min"):
            y = rebuild(x, go)
            r = _mmassume(y, cc) if y.op in ("max", "min") else y
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    return go(t)


def equal(a, b, under=TRUE, budget=None):
    """equality by case split over phi conditions; True / False (differs)"""
    if budget is None:
        budget = [400]
    if a is b:
        return True
    if under is FALSE:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        return None
    if isbool(a) and isbool(b):
        x = and_(under, a, not_(b))
        y = and_(under, b, not_(a))
        return unsat(x, 10) and unsat(y, 10)
    cs = conds(a) + conds(b)
    atoms = []
    for c in cs:
        for l in _flatlits(c):
            if l not in atoms and not_(l) not in atoms:
                atoms.append(l)
    # pick the first undecided
    for c in sorted(atoms, key=lambda t: t.id):
        if decide(under, c) is None:
            u1 = and_(under, c)
            u2 = and_(under, not_(c))
            r = True
            for u in (u1, u2):
                if unsat(u, 4):
                    continue
                q = equal(deep_assume(a, u), deep_assume(b, u), u, budget)
                if q is not True:
                    return q
            return r
    return req(a, b)


def _flatlits(c):
    if c.op in ("and", "or"):
        for x in c.args:
            yield from _flatlits(x)
    elif c.op == "not":
        yield c.args[0]
    else:
        yield c


# ---------------------------------------------------------------- display
def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if o == "num":
        v = a[0]
        return str(v) if v.denominator == 1 or abs(v.numerator) < 1000 else repr(float(v))
    if o == "str":
        return repr(a[0])
    if o == "bool":
        return str(a[0])
    if o == "none":
        return "None"
    if o == "inf":
        return "inf" if a[0] > 0 else "-inf"
    if o in ("sym",):
        return str(a[0])
    if o == "idx":
        return "i%s" % (a[0],)
    if o == "poly":
        r = []
        for m, c in a[0][:12]:
            p = "*".join(s(x) + ("^%d" % e if e != 1 else "") for x, e in m)
            if not p:
                p = str(c)
            elif c == -1:
                p = "-" + p
            elif c != 1:
                p = str(c) + "*" + p
            r.append(p)
        if len(a[0]) > 12:
            r.append("…(%d)" % len(a[0]))
        return "(" + " + ".join(r).replace("+ -", "- ") + ")"
    if o == "lt0":
        return s(a[0]) + "<0"
    if o == "le0":
        return s(a[0]) + "<=0"
    if o == "eq0":
        return s(a[0]) + "==0"
    if o == "eq":
        return s(a[0]) + "==" + s(a[1])
    if o == "not":
        return "!" + s(a[0])
    if o in ("and", "or"):
        return "(" + (" & " if o == "and" else " | ").join(s(x) for x in a) + ")"
    if o == "sel":
        if a[1].op == "str":
            return s(a[0]) + "." + a[1].args[0]
        return s(a[0]) + "[" + s(a[1]) + "]"
    if o == "seq":
        return {"tuple": "(", "array": "A["}.get(a[0], "[") + ", ".join(s(x) for x in a[1]) + "]"
    if o == "paren":
        return s(a[0])
    if o == "phi":
        return "phi(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if o in ("fn", "call", "op"):
        return "%s(%s)" % (a[0], ", ".join(s(x) if isinstance(x, T) else repr(x) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(_sa(x, depth - 1) for x in a))


def _sa(x, d):
    if isinstance(x, T):
        return show(x, d)
    if isinstance(x, tuple):
        return "(" + ", ".join(_sa(y, d - 1) for y in x) + ")" if d > 0 else "…"
    return str(x)


def kwget(base, k, *dflt):
    """entry of a dictionary term"""
    b = base
    while k.op == "str":
        if b.op == "snap":
            d = [v for kk, v in b.args[1] if kk is k]
            if d:
                return d[-1]
            if any(kk.op != "str" for kk, _ in b.args[1]):
                break
            b = b.args[0]
        elif b.op == "emptydict":
            if dflt:
                return dflt[0]
            break
        elif b.op == "phi":
            return phi(b.args[0], kwget(b.args[1], k, *dflt), kwget(b.args[2], k, *dflt))
        else:
            base = b
            break
    return mk("getkw", base, k, *dflt)
