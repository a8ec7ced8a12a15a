"""C09: image coordinates of different kinds are never mixed."""
import ast

from ..rulekit import *
from .c18 import OPS

TECHNIQUE = ("kind inference over the value graph (a units-of-measure analysis): every value is typed as pixel, distorted metric, flat metric or flat metric about the image centre, with its axis, from the "
             "signatures of the conversion routines and the fields of detections; arguments, results, sums, comparisons and stores are checked against these kinds at every call site")
NOTE = "The formulas inside the conversion routines are the subject of C01 to C04; here they are taken by their signatures."

PX, DM, FM, FC = "pixel", "distorted metric", "flat metric", "flat metric about the image centre"
X, Y = "x", "y"
MARK = {"may", "alike"}
# routine: ({position: kind and axis}, [kinds of the results])
SIG = {
    "pixel_to_metric": ({0: (PX, X), 1: (PX, Y)}, [(DM, X), (DM, Y)]),
    "metric_to_pixel": ({0: (DM, X), 1: (DM, Y)}, [(PX, X), (PX, Y)]),
    "dist_to_flat": ({0: (DM, X), 1: (DM, Y)}, [(FM, X), (FM, Y)]),
    "flat_to_dist": ({0: (FM, X), 1: (FM, Y)}, [(DM, X), (DM, Y)]),
    "correct_brown_affine": ({0: (DM, X), 1: (DM, Y)}, [(FC, X), (FC, Y)]),
    "distort_brown_affine": ({0: (FC, X), 1: (FC, Y)}, [(DM, X), (DM, Y)]),
    "ray_tracing": ({0: (FM, X), 1: (FM, Y)}, []),
    "img_coord": ({}, [(DM, X), (DM, Y)]),
    "flat_image_coord": ({}, [(FM, X), (FM, Y)]),
    "point_to_pixel": ({}, [(PX, X), (PX, Y)]),
    "epi_mm": ({0: (FM, X), 1: (FM, Y)}, [(FM, X), (FM, Y), (FM, X), (FM, Y)]),
    "epi_mm_2D": ({0: (FM, X), 1: (FM, Y)}, []),
    "find_candidate": ({3: (FM, X), 4: (FM, Y), 5: (FM, X), 6: (FM, Y)}, []),
    "candsearch_in_pix": ({2: (PX, X), 3: (PX, Y)}, []),
    "candsearch_in_pix_rest": ({2: (PX, X), 3: (PX, Y)}, []),
    "register_closest_neighbs": ({3: (PX, X), 4: (PX, Y)}, []),
    "nearest_neighbour_pix": ({1: (PX, X), 2: (PX, Y)}, []),
}
# tables of flat coordinates: routine and position of the parameter
TABLES = {("match_pairs", 1), ("correspondences", 1), ("py_correspondences", 1), ("single_cam_correspondences", 1), ("find_candidate", 0), ("matched_coords_as_arrays", 0)}
# arrays of pairs of coordinates, one for each camera
PAIRS = {("point_position", 0): FM, ("sorted_candidates_in_volume", 1): PX}
FUNCS = [("imgcoord", "img_coord"), ("trafo", "dist_to_flat"), ("trafo", "flat_to_dist"), ("multimed", "init_mmlut"), ("multimed", "volumedimension"), ("epi", "epi_mm"), ("epi", "epi_mm_2D"),
         ("epi", "epipolar_curve"), ("find_candidate", "find_candidate"), ("correspondences", "match_pairs"), ("correspondences", "py_correspondences"),
         ("correspondences", "single_cam_correspondences"), ("orientation", "point_position"), ("orientation", "orient"), ("orientation", "raw_orient"),
         ("orientation", "external_calibration"), ("orientation", "full_calibration"), ("orientation", "match_detection_to_ref"), ("orientation", "num_deriv_exterior"),
         ("orientation", "single_cam_point_positions"), ("orientation", "multi_cam_point_positions"), ("orientation", "weighted_dumbbell_precision"), ("sortgrid", "sortgrid"),
         ("sortgrid", "nearest_neighbour_pix"), ("track", "point_to_pixel"), ("track", "register_closest_neighbs"), ("track", "candsearch_in_pix"), ("track", "candsearch_in_pix_rest"),
         ("track", "searchquader"), ("track", "sorted_candidates_in_volume"), ("track", "assess_new_position"), ("track", "trackcorr_c_loop"), ("track", "trackback_c"),
         ("tracking_frame_buf", "match_coords"), ("tracking_frame_buf", "matched_coords_as_arrays"), ("tracking_frame_buf", "Frame.target_positions_for_camera"),
         ("imgcoord", "image_coordinates"), ("imgcoord", "flat_image_coordinates")]
# routines that fill an array with coordinates of one kind
ARR = {"image_coordinates": DM, "flat_image_coordinates": FM, "epipolar_curve": PX}
# routines returning coordinates, besides those of SIG
RET = {"point_to_pixel", "img_coord", "epi_mm", "flat_to_dist", "dist_to_flat"}


def check(ctx):
    ctx.rule("Every argument of a conversion, projection, ray tracing, epipolar or search routine whose kind is known is of the kind and axis the routine takes; every result is of the kind it promises; "
             "sums, differences and comparisons join values of one kind and axis; x and y fields receive values of their own axis, detections pixels, matched coordinates flat metric ones.")
    for mod, q in FUNCS:
        f = ctx.func(mod, q)
        if f is None:
            ctx.unk("anchor", q, "not found")
            continue
        name = f.name
        opq = tuple(o for o in tuple(SIG) + OPS + ("skew_midpoint", "match_pairs", "sort_candidates_by_freq", "angle_acc") if o.split(".")[-1] != name)
        r = ctx.run(mod, q, opaque=opq, effects={"candsearch_in_pix_rest": ("p",)})
        if r is not None:
            Kinds(ctx, f, r).go()


class Kinds:
    def __init__(self, ctx, f, r):
        self.ctx, self.f, self.r, self.memo, self.mixed = ctx, f, r, {}, {}
        self.params = {}
        self.tables, self.pairs = set(), {}
        self.stores, self.bases, self.weakmemo = {}, {}, {}
        for e in r.ev("store"):
            self.bases[e.d["base"].id] = e.d["base"]
        for e in r.ev("store"):
            if e.d["key"].op != "str":
                for k, v in self.slots(e.d["base"], e.d["key"], e.d["val"]):
                    self.stores.setdefault(k, []).append(v)
        name = f.name
        for i, p in enumerate(f.params):
            t = mk("sym", p)
            if name in SIG and i in SIG[name][0]:
                self.params[t] = SIG[name][0][i]
            if (name, i) in TABLES:
                self.tables.add(t)
            if (name, i) in PAIRS:
                self.pairs[t] = PAIRS[(name, i)]

    # ---- arrays: what is stored into an element of them anywhere in the function
    def array(self, b):
        """an array by its place of creation and the constant indices leading into it"""
        n = 0
        while n < 50:
            n += 1
            if b.op in ("mu", "muout") and isinstance(b.args[1], tuple) and len(b.args[1]) == 2 and b.args[1][0] == "i" and b.args[1][1] in self.bases:
                b = self.bases[b.args[1][1]]
            elif b.op == "hphi2":
                b = b.args[1]
            elif b.op in ("snap", "cp"):
                b = b.args[0]
            elif b.op in ("row", "sel") and b.args[1].op != "str":
                a = self.array(b.args[0])
                return None if a is None else (a[0], a[1] + (b.args[1].args[0] if b.args[1].op == "num" else "*",))
            elif b.op == "obj" or b.op == "seq" and b.id in self.bases:
                return (b, ())
            else:
                return None
        return None

    def slots(self, b, k, v):
        a = self.array(b)
        if a is None:
            return
        ks = elems(k) if k.op == "seq" else [k]
        if any(x.op not in ("num", "idx", "sym", "poly", "sel") for x in ks):
            return
        yield (a[0], a[1] + tuple(x.args[0] if x.op == "num" else "*" for x in ks)), v

    def element(self, t):
        """kinds of the values ever stored where t reads"""
        for s, _ in self.slots(t.args[0], t.args[1], None):
            # lists written alike cannot be told apart
            out = {"alike"} if s[0].op == "seq" else set()
            for v in self.stores.get(s, ()):
                if v.op in ("num", "inf"):
                    continue
                k = self.kind(v)
                if k is None:
                    return None
                out |= k
            return frozenset(out | {"may"}) if out - MARK else None
        return None

    # ---- kinds of values: a set of (kind, axis), None when not known; with "may", some of them only
    def kind(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        k = self.kind1(t)
        self.memo[t] = k = k or None
        return k

    def result(self, c, i):
        n = c.args[0].split(".")[-1] if isinstance(c.args[0], str) else None
        if n in SIG and i < len(SIG[n][1]):
            return frozenset([SIG[n][1][i]])
        return None

    def kind1(self, t):
        if t in self.params:
            return frozenset([self.params[t]])
        if t.op in ("snap", "cp"):
            return self.kind(t.args[0])
        if t.op == "sel":
            b, k = t.args
            if b.op == "call" and k.op == "num" and k.args[0] == int(k.args[0]):
                return self.result(b, int(k.args[0]))
            if b.op in ("snap", "cp") and b.args[0].op == "call" and k.op == "num":
                return self.result(b.args[0], int(k.args[0]))
            if k.op == "str":
                n = k.args[0]
                if n == "imx":
                    return frozenset([(PX, X)])
                if n == "imy":
                    return frozenset([(PX, Y)])
                if n in (X, Y):
                    if self.detection(b):
                        return frozenset([(PX, n)])
                    if root(b) in self.tables:
                        return frozenset([(FM, n)])
                return None
            if k.op == "num" and k.args[0] in (0, 1) and b.op == "sel" and b.args[1].op != "str" and b.args[0] in self.pairs:
                return frozenset([(self.pairs[b.args[0]], X if k.args[0] == 0 else Y)])
            return self.element(t)
        if t.op == "phi":
            a, b = self.kind(t.args[1]), self.kind(t.args[2])
            if a is None or b is None:
                return None
            return a | b
        if t.op == "poly":
            return self.poly(t)
        if t.op in ("max", "min"):
            ks = [self.kind(x) for x in kids(t) if isinstance(x, T) and x.op not in ("num", "inf")]
            return ks[0] if ks and all(k == ks[0] for k in ks) else None
        if t.op == "fn" and t.args[0] in ("int", "float", "floor", "ceil", "round", "rint"):
            return self.kind(t.args[1])
        return None

    def detection(self, b):
        ty = self.r.ip.type_of(b)
        if isinstance(ty, tuple) and ty[0] == "cls":
            return ty[1] is not None and ty[1].name == "Target"
        return ty is None and b.op == "sel" and b.args[1].op != "str" and b.args[0].op == "sel" and b.args[0].args[1].op != "str" and lastfield(b.args[0].args[0]) == "targets"

    def mono(self, m):
        """kind of a product with a constant: a single value, or a size times the size of a pixel"""
        if len(m) == 1 and m[0][1] == 1:
            return self.kind(m[0][0])
        if len(m) == 2 and all(e == 1 for _, e in m):
            n = {lastfield(a) for a, _ in m}
            if n == {"imx", "pix_x"}:
                return frozenset([(DM, X)])
            if n == {"imy", "pix_y"}:
                return frozenset([(DM, Y)])
        if len(m) == 2 and sorted(e for _, e in m) == [-1, 1]:
            # metric over pixel size
            a = next(x for x, e in m if e == 1)
            b = next(x for x, e in m if e == -1)
            if lastfield(b) in ("pix_x", "pix_y"):
                k = self.kind(a)
                if k is not None and "may" not in k and all(y[0] == DM for y in k):
                    return frozenset((PX, y[1]) for y in k)
        return None

    def weak(self, t):
        """kind of a value a distance of unknown origin may have been added to"""
        if t in self.weakmemo:
            return self.weakmemo[t]
        self.weakmemo[t] = None
        k = self.kind(t)
        if k is None and t.op == "poly":
            ks = [(self.kind(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None, c) for m, c in topoly(t).items() if m]
            known = [(k, c) for k, c in ks if k is not None]
            if len(known) == 1 and known[0][1] == 1 and not any(lastfield(a) in ("xh", "yh") for m in topoly(t) for a, _ in m):
                k = known[0][0]
        elif k is None and t.op == "phi":
            a, b = (self.weak(x) for x in t.args[1:3])
            lim = lambda x: x.op in ("num", "inf")
            k = a if b is None and lim(t.args[2]) else b if a is None and lim(t.args[1]) else a | b if a and b else None
        elif k is None and t.op in ("max", "min"):
            ks = [self.weak(x) for x in kids(t) if isinstance(x, T) and x.op not in ("num", "inf")]
            k = ks[0] if ks and all(x == ks[0] for x in ks) else None
        if k is not None and any(x[0] != PX for x in k - MARK):
            k = self.kind(t)
        self.weakmemo[t] = k
        return k

    def clash(self, k, k2):
        """kinds of two values that are added or compared, when they differ"""
        a, b = sorted(k - MARK), sorted(k2 - MARK)
        if "alike" in k or "alike" in k2:
            return None
        if "may" not in k and "may" not in k2:
            return (a[0], b[0]) if len(a) == 1 and len(b) == 1 and a != b else None
        for x in a:
            for y in b:
                if x != y and (len(a) == 1 or len(b) == 1):
                    return (x, y)
        return None

    def poly(self, t):
        ks, free, shift = [], False, 0
        p = topoly(t)
        for m, c in p.items():
            if not m:
                continue
            if len(m) == 1 and m[0][1] == 1 and lastfield(m[0][0]) in ("xh", "yh"):
                shift += 1 if c > 0 else -1
                if abs(c) != 1:
                    return None
                continue
            k = self.mono(m)
            if k is None:
                free = True
                k = self.weak(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
            if k is not None:
                ks.append((k, m, c))
            # the square of a sum
            if len(m) == 2 and all(e == 1 for _, e in m):
                sq = [p.get(((a, 2),)) for a, _ in m]
                if None not in sq and c < 0 and min(sq) > 0 and -c >= 2 * min(sq):
                    k1, k2 = self.weak(m[0][0]), self.weak(m[1][0])
                    if k1 and k2 and self.clash(k1, k2):
                        self.mixed.setdefault(t, self.clash(k1, k2))
        if not ks:
            return None
        sizes = lambda m: all(lastfield(a) in ("imx", "imy", "pix_x", "pix_y") for a, _ in m)
        for i, (k, m, c) in enumerate(ks):
            for k2, m2, c2 in ks[:i]:
                x = self.clash(k, k2)
                if x and not (sizes(m) and sizes(m2)):
                    self.mixed.setdefault(t, x)
        if free:
            return None
        if any(k != ks[0][0] for k, _, _ in ks) or "may" in ks[0][0] and len(ks) > 1:
            return None
        k = ks[0][0]
        if shift:
            if "may" in k:
                return None
            if shift == 1 and all(a[0] == FM for a in k):
                return frozenset((FC, a[1]) for a in k)
            if shift == -1 and all(a[0] == FC for a in k):
                return frozenset((FM, a[1]) for a in k)
            return None
        # a difference of two values of a kind is no coordinate
        n = sum(c for _, m, c in ks if not sizes(m))
        if n == 0 and any(not sizes(m) for _, m, c in ks):
            return None
        return k

    # ---- obligations
    def go(self):
        ctx, f, r = self.ctx, self.f, self.r
        terms = {}
        for e in r.events:
            wh = where(f, e.node)
            if e.kind == "call":
                n = e.d["name"].split(".")[-1]
                g = e.d.get("fn")
                if n in SIG and n != f.name:
                    names = list(g.params) if g is not None and getattr(g, "params", None) else list(e.d["args"])
                    for i, want in SIG[n][0].items():
                        a = e.d["args"].get(names[i]) if i < len(names) else None
                        if isinstance(a, T):
                            self.need("%s:%s:%s" % (f.name, n, names[i]), wh, self.under(a, e), want, "argument %s of %s" % (names[i], n))
                for v in e.d["args"].values():
                    if isinstance(v, T):
                        terms.setdefault(v, (e, wh))
            elif e.kind == "store":
                k, b = e.d["key"], e.d["base"]
                if k.op == "str" and k.args[0] in (X, Y):
                    if self.detection(b):
                        self.need("%s:store:%s" % (f.name, k.args[0]), wh, e.d["val"], (PX, k.args[0]), "position of a detection")
                    elif "matched" in str(path(b)) or f.name == "match_coords":
                        self.need("%s:store:%s" % (f.name, k.args[0]), wh, e.d["val"], (FM, k.args[0]), "matched coordinate")
                    else:
                        kk = self.kind(e.d["val"])
                        if kk is not None and "may" not in kk and any(a[1] != k.args[0] for a in kk):
                            ctx.bad("%s:store:%s" % (f.name, k.args[0]), wh, "the %s field receives a %s value" % (k.args[0], "/".join(sorted(a[1] for a in kk))))
                terms.setdefault(e.d["val"], (e, wh))
            elif e.kind == "assign":
                terms.setdefault(e.d["val"], (e, wh))
            for c in conjuncts(e.guard):
                terms.setdefault(c, (e, wh))
        self.returns()
        self.arrays()
        seen = set()
        for t, (e, wh) in terms.items():
            todo = [t]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "poly":
                    self.kind(x)
                todo += list(kids(x))
        n = 0
        for t, (a, b) in self.mixed.items():
            e, wh = next((v for k, v in terms.items() if k is t or any(x is t for x in walk(k))), (None, where(f)))
            n += 1
            ctx.bad("%s:sum" % f.name, wh, "a sum, difference or comparison joins a %s %s value with a %s %s value" % (a[0], a[1], b[0], b[1]))
        if not n:
            ctx.hold("%s:sums" % f.name, where(f), "sums and comparisons join values of one kind")

    def under(self, v, e):
        for c in conjuncts(e.guard):
            v = tm.deep_assume(v, c)
        return v

    def need(self, tag, wh, v, want, what):
        k = self.kind(v)
        if k is None:
            return
        if "may" in k:
            k = k - MARK
            if want in k:
                return
        if k == frozenset([want]):
            self.ctx.hold(tag, wh, "%s is a %s %s value" % (what, want[0], want[1]))
        else:
            w = sorted(a for a in k if a != want)[0]
            self.ctx.bad(tag, wh, "%s is a %s %s value, expected %s %s" % (what, w[0], w[1], want[0], want[1]))

    def returns(self):
        f = self.f
        if f.name not in RET:
            return
        v = self.r.ret()
        for i, want in enumerate(SIG[f.name][1]):
            x = elems(v)[i] if v.op == "seq" and i < len(elems(v)) else None
            if x is not None:
                self.need("%s:result%d" % (f.name, i), where(f), x, want, "result %d" % i)

    def arrays(self):
        """pairs of coordinates: x at 0, y at 1, both of one kind"""
        f = self.f
        by = {}
        for e in self.r.ev("store"):
            k, b = e.d["key"], e.d["base"]
            if e.d["val"].op == "seq" and len(elems(e.d["val"])) == 2:
                ks = [self.kind(x) for x in elems(e.d["val"])]
                if all(x is not None and len(x) == 1 for x in ks):
                    self.pair(e.node, e.node, *(next(iter(x)) for x in ks))
            kk = self.kind(e.d["val"])
            if kk is None or len(kk) != 1 or "may" in kk:
                continue
            i = k
            if k.op == "seq" and elems(k):
                i = elems(k)[-1]
            if i.op == "num" and i.args[0] in (0, 1) and i.args[0] == int(i.args[0]):
                by.setdefault((b, k if k.op != "seq" else seq(elems(k)[:-1], "tuple"), e.guard) if k.op == "seq" else (b, e.guard), {}).setdefault(int(i.args[0]), []).append((e, next(iter(kk))))
        for d in by.values():
            if 0 in d and 1 in d:
                for (e0, k0), (e1, k1) in zip(d[0], d[1]):
                    self.pair(e0.node, e1.node, k0, k1)

    def pair(self, n0, n1, k0, k1):
        f = self.f
        if f.name in ARR and k0[0] == k1[0]:
            if k0[0] == ARR[f.name]:
                self.ctx.hold("%s:array" % f.name, where(f, n0), "the array is filled with %s coordinates" % k0[0])
            else:
                self.ctx.bad("%s:array" % f.name, where(f, n0), "the array is filled with %s coordinates instead of %s ones" % (k0[0], ARR[f.name]))
        if k0[0] == k1[0] and (k0[1], k1[1]) == (X, Y):
            self.ctx.hold("%s:pair" % f.name, where(f, n0), "x then y, both %s" % k0[0])
        elif k0[0] != k1[0] or (k0[1], k1[1]) == (Y, X) or k0[1] == k1[1]:
            self.ctx.bad("%s:pair" % f.name, where(f, n1), "a pair of coordinates is filled with a %s %s and a %s %s value" % (k0 + k1))


def lastfield(t):
    return t.args[1].args[0] if t.op == "sel" and t.args[1].op == "str" else None
