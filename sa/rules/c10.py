"""C10: data of a camera only meets the calibration and the tables of the same camera."""
from ..rulekit import *

TECHNIQUE = ("camera-index typing of the value graph: every access to a table kept per camera carries the index of its camera; indices meeting in one call, one element access or one "
             "store are compared (dataflow over all call sites of the camera-dependent routines)")

FIELDS = {"targets", "num_targets", "target_file_base", "img_base_name", "cal_img_base_name", "cal", "p", "whichcam"}
# routines working on the data of one camera, and routines that take several cameras
ONE_CAM = ("pixel_to_metric", "metric_to_pixel", "dist_to_flat", "correct_brown_affine", "distort_brown_affin", "flat_to_dist", "img_coord", "flat_image_coord", "ray_tracing",
           "epi_mm_2D", "point_to_pixel", "candsearch_in_pix", "candsearch_in_pix_rest", "register_closest_neighbs", "read_targets", "write_targets", "match_detection_to_ref", "nearest_neighbour_pix",
           "init_mmlut")
MANY = ("epi_mm", "find_candidate", "skew_midpoint", "point_position", "searchquader", "assess_new_position", "sorted_candidates_in_volume", "add_particle", "take_best_candidates", "match_pairs",
        "four_camera_matching", "three_camera_matching", "consistent_pair_matching", "correspondences", "single_cam_correspondences", "sort_candidates_by_freq", "angle_acc", "pos3d_in_bounds",
        "search_volume_center_moving", "read_path_frame", "write_path_frame", "multi_cam_point_positions", "single_cam_point_positions", "point_positions")
# function, parameters that are tables per camera
FUNCS = [("correspondences", "match_pairs", (1, 5)), ("multimed", "volumedimension", (8,)), ("orientation", "point_position", (0, 3)), ("orientation", "single_cam_point_positions", (2,)),
         ("track", "searchquader", (3,)), ("track", "sorted_candidates_in_volume", (1,)), ("track", "assess_new_position", ()), ("track", "add_particle", (2,)), ("track", "trackcorr_c_loop", ()),
         ("track", "trackback_c", ()), ("correspondences", "correspondences", (1, 4)), ("correspondences", "take_best_candidates", (3,)), ("correspondences", "py_correspondences", (0, 1, 2)),
         ("tracking_frame_buf", "Frame.read", (4,)), ("tracking_frame_buf", "Frame.write", (4,)), ("tracking_frame_buf", "Frame.target_positions_for_camera", ()),
         ("orientation", "weighted_dumbbell_precision", (2,)), ("orientation", "multi_cam_point_positions", (2,)), ("orientation", "point_positions", (2,))]


def check(ctx):
    ctx.rule("In every routine that works with more than one camera, each access to a table kept per camera is labelled with the camera index used; the indices of all data meeting in a "
             "call of a one-camera routine, in an element access through an index stored per camera, in an index range taken from a count per camera, and in a store into an element of a "
             "camera are the same; two-camera routines get data of the first, then of the second camera. Loops over cameras stay within the number of cameras.")
    for mod, q, ps in FUNCS:
        f = ctx.func(mod, q)
        if f is None:
            ctx.unk("anchor", q, "not found")
            continue
        if ps and max(ps) >= len(f.params):
            ctx.unk("anchor", where(f), "parameters")
            continue
        r = ctx.run(mod, q, opaque=tuple(x for x in ONE_CAM + MANY if x != q), effects={"candsearch_in_pix_rest": ("p",)})
        if r is None:
            continue
        Cams(ctx, f, r, {mk("sym", f.params[i]) for i in ps}).go()
    for q, data, first, second in (("epi_mm", (0, 1), 2, 3), ("epipolar_curve", (0,), 1, 2)):
        two(ctx, q, data, first, second)


def two(ctx, q, data, first, second):
    """a point of one camera is traced back with that camera and projected with the other one"""
    f = ctx.func("epi", q)
    if f is None or len(f.params) <= second:
        return
    r = ctx.run("epi", q, opaque=ONE_CAM)
    if r is None:
        return
    a, b = mk("sym", f.params[first]), mk("sym", f.params[second])
    for e in r.ev("call"):
        n = e.name.split(".")[-1]
        if n not in ONE_CAM:
            continue
        args = list(e.args.values())
        cal = {x for x in args if x in (a, b)}
        if len(cal) != 1:
            continue
        cal = cal.pop()
        want = a if n in ("dist_to_flat", "ray_tracing", "correct_brown_affine") else b if n in ("img_coord", "flat_image_coord", "flat_to_dist", "point_to_pixel") else None
        if want is None:
            continue
        if cal is want:
            ctx.hold("two", e.where, "%s gets the calibration of its own camera" % n)
        else:
            ctx.bad("two", e.where, "%s gets the calibration of the other camera (%s)" % (n, show(cal)))


class Cams:
    def __init__(self, ctx, f, r, params):
        self.ctx, self.f, self.r, self.params = ctx, f, r, params
        self.memo, self.seen, self.index, self.loops = {}, set(), set(), {}

    def cameras(self, t):
        """the number of cameras"""
        return t.op == "sel" and t.args[1].op == "str" and t.args[1].args[0] == "num_cams" or t.op == "sym" and t.args[0] == "num_cams"

    def table(self, b):
        if b in self.params:
            return True
        if b.op == "sel":
            k = b.args[1]
            if k.op == "str":
                return k.args[0] in FIELDS
            # limits of the search area: one list per limit
            return k.op == "num" and b.args[0].op == "call" and b.args[0].args[0].split(".")[-1] == "searchquader"
        return False

    def cams(self, t):
        """cameras whose data the value is (indices used to select it aside)"""
        m = self.memo.get(t)
        if m is not None:
            return m
        self.memo[t] = frozenset()
        out = set()
        if t.op == "sel":
            b, k = t.args
            if self.table(b) and k.op != "str":
                out = {k}
            else:
                out = self.cams(b)
        elif t.op in ("idx", "obj", "mu", "muout", "exc", "wit", "lastwit", "ex"):
            out = set()
        elif t.op == "call" and t.args[0].split(".")[-1] in MANY:
            out = set()
        elif t.op == "phi":
            out = set().union(*[self.cams(x) for x in t.args[1:]])
        else:
            for x in kids(t):
                out |= self.cams(x)
        m = self.memo[t] = frozenset(out)
        return m

    def values(self, e):
        for k, v in e.d.items():
            if isinstance(v, T):
                yield v
            elif isinstance(v, dict):
                yield from (x for x in v.values() if isinstance(x, T))
            elif isinstance(v, (list, tuple)):
                yield from (x for x in v if isinstance(x, T))

    def same(self, tag, wh, a, b, what):
        """both indices name the same camera"""
        if a is b:
            return self.ctx.hold(tag, wh, what)
        plain = all(x.op in ("idx", "num", "poly", "sym", "bool") for c in (a, b) for x in self.walk(c))
        if plain and (a.op == b.op == "num" or a.op == "idx" and b.op == "idx" or compare(a, b)[0] == "ne"):
            self.ctx.bad(tag, wh, "%s: camera %s meets camera %s" % (what, self.nm(a), self.nm(b)))
        else:
            self.ctx.unk(tag, wh, what)

    def nm(self, a):
        return show(a, 3)

    def walk(self, t):
        """parts of a term, not looking into the ranges of loops"""
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.op != "idx":
                todo.extend(kids(x))

    def go(self):
        ctx, r = self.ctx, self.r
        terms = {}
        for e in r.events:
            for v in list(self.values(e)) + [e.guard]:
                if v.id not in terms:
                    terms[v.id] = (v, e)
            for L in e.loops:
                self.loops[L.idx] = L
            if e.kind == "store" and isinstance(e.d.get("base"), T) and isinstance(e.d.get("key"), T):
                t = mk("sel", e.base, e.key)
                terms.setdefault(t.id, (t, e))
        self.index |= {i for i, L in self.loops.items() if self.cameras(L.hi)}
        done = set()
        accesses = []
        for v, e in terms.values():
            for x in self.walk(v):
                if x in done:
                    continue
                done.add(x)
                if x.op == "sel" and x.args[1].op != "str":
                    if self.table(x.args[0]):
                        self.index |= {y for y in self.walk(x.args[1]) if y.op == "idx"}
                    accesses.append((x, e))
        for x, e in accesses:
            self.element(x, e)
        for e in r.events:
            if e.kind == "call":
                self.call(e)
                self.fixed(e, list(e.args.values()))
            elif e.kind == "store":
                self.store(e)
                self.fixed(e, [e.val])
        self.ranges()

    def element(self, x, e):
        """an element of data of a camera is picked by an index of the same camera"""
        b, k = x.args
        if self.table(b):
            mine = {k}
            # the key of a table is a camera, not data
            return
        mine = self.cams(b)
        if len(mine) != 1:
            return
        (c,) = mine
        for d in self.cams(k):
            self.same("element", e.where, c, d, "element %s picked with an index of its camera" % show(x, 4)[:80])
        if k.op == "idx":
            L = self.loops.get(k)
            if L is not None:
                for d in self.cams(L.hi):
                    self.same("range", e.where, c, d, "elements of %s are counted with the number of its camera" % show(b, 4)[:60])

    def argcams(self, t):
        s = set(self.cams(t))
        if t.op in ("idx", "poly"):
            s |= {y for y in self.walk(t) if y in self.index}
        if t.op == "slice":
            s |= {y for y in self.walk(t) if y in self.index}
        return s

    def call(self, e):
        n = e.name.split(".")[-1]
        args = list(e.args.values())
        cs = [self.argcams(a) for a in args]
        sz = [set(self.sliced(a)) for a in args]
        ctx = self.ctx
        if n in ONE_CAM:
            all_ = set().union(*cs, *sz) if cs else set()
            all_ = sorted(all_, key=lambda c: c.id)
            for c in all_[1:]:
                self.same("call", e.where, all_[0], c, "data given to %s" % n)
            if len(all_) == 1:
                ctx.hold("call", e.where, n)
                for a in args:
                    self.portion(e, a, all_[0])
        elif n == "epi_mm" and len(args) >= 4:
            self.group(e, "first camera of the epipolar line", args[0:3])
            self.other(e, args[2], args[3])
        elif n == "find_candidate" and len(args) == 14:
            self.group(e, "detections searched", args[0:3] + args[13:14])
            self.group(e, "detection to be matched", args[7:11])
            self.other(e, args[0], args[7])
            for k in range(4):
                for x in self.walk(args[3 + k]):
                    if x.op == "call" and x.args[0].split(".")[-1] == "epi_mm" and len(x.args) > 4:
                        self.meet(e, "epipolar line of the detection to be matched", x.args[1], args[7])
                        self.meet(e, "epipolar line in the image that is searched", x.args[4], args[0])
        elif n == "skew_midpoint" and len(args) == 4:
            self.group(e, "first ray", args[0:2])
            self.group(e, "second ray", args[2:4])
            self.other(e, args[0], args[2])

    def sliced(self, a):
        """cameras of the part of a common array"""
        while a.op in ("sel", "row", "snap", "cp"):
            k = a.args[1] if len(a.args) > 1 else None
            if isinstance(k, T) and k.op == "slice":
                for y in self.walk(k):
                    if y in self.index:
                        yield y
            a = a.args[0]

    def portion(self, e, a, c):
        """the portion of a common array that belongs to a camera starts at a multiple of its number"""
        while a.op in ("sel", "row", "snap", "cp"):
            k = a.args[1] if len(a.args) > 1 else None
            if isinstance(k, T) and k.op == "slice" and c in set(self.walk(k)):
                lo = k.args[0]
                at0 = tm.subst(lo, {c: ZERO}) if isinstance(lo, T) else None
                if at0 is None or at0.op != "num":
                    self.ctx.unk("portion", e.where, show(a, 4)[:80])
                else:
                    (self.ctx.hold if at0 is ZERO else self.ctx.bad)("portion", e.where, "the first camera gets the first portion of %s (%s)" % (show(a.args[0], 3), show(lo, 4)))
            a = a.args[0]

    def fixed(self, e, vals):
        """within a loop over the cameras, data does not come from one fixed camera"""
        mine = [L.idx for L in e.loops if L.idx in self.index and self.cameras(L.hi)]
        if len(mine) != 1 or e.kind == "call" and e.name.split(".")[-1] not in ONE_CAM:
            return
        cs = set().union(*[self.cams(v) for v in vals])
        if cs and all(c.op == "num" for c in cs):
            self.ctx.bad("fixed", e.where, "in a loop over the cameras, data comes from camera %s" % ", ".join(sorted(self.nm(c) for c in cs)))
            return
        for v in vals:
            for x in self.walk(v):
                if x.op == "phi" and mine[0] in set(self.walk(x.args[0])):
                    ks = {y.args[1] for z in x.args[1:] for y in self.walk(z) if y.op == "sel" and y.args[0].op == "mu" and y.args[1].op == "num"}
                    if len(ks) == 1 and x.args[0] is tm.eq(mine[0], next(iter(ks))):
                        self.ctx.bad("fixed", e.where, "in a loop over the cameras, data kept for camera %s is used" % self.nm(next(iter(ks))))

    def group(self, e, what, args):
        cs = sorted(set().union(*[self.cams(a) for a in args]), key=lambda c: c.id)
        for c in cs[1:]:
            self.same("pair", e.where, cs[0], c, what)
        if len(cs) == 1:
            self.ctx.hold("pair", e.where, what)

    def meet(self, e, what, a, b):
        for c in self.cams(a):
            for d in self.cams(b):
                self.same("pair", e.where, c, d, what)

    def other(self, e, a, b):
        for c in self.cams(a):
            if c in self.cams(b):
                self.ctx.bad("pair", e.where, "camera %s is paired with itself" % self.nm(c))
            else:
                self.ctx.hold("pair", e.where, "two cameras")

    def store(self, e):
        """what is stored for a camera comes from that camera"""
        ctx = self.ctx
        keys, b = [e.key], e.base
        while b.op in ("sel", "row"):
            keys.append(b.args[1])
            b = b.args[0]
        mine = [k for k in keys if isinstance(k, T) and k in self.index]
        data = self.cams(e.val)
        # lists for pairs of cameras
        if len(mine) == 2 and len(set(mine)) == 2:
            j, i = mine[0], mine[1]  # innermost key first
            self.pairs(e, i, j)
            return
        if e.key is not None and e.key.op == "str" and len(mine) == 0:
            return
        if len(mine) != 1 or b in self.params and False:
            return
        for d in sorted(data, key=lambda c: c.id):
            if d in self.index or d.op == "num":
                self.same("store", e.where, mine[0], d, "what is kept for a camera comes from it: %s" % show(e.val, 3)[:60])

    def pairs(self, e, i, j):
        fld = fieldname(mk("sel", e.base, e.key)) if e.key is not None else None
        for x in self.walk(e.val):
            if x.op == "call" and x.args[0].split(".")[-1] == "find_candidate" and len(x.args) == 15:
                for c in self.cams(x.args[1]):
                    self.same("pair", e.where, j, c, "candidates listed for a pair of cameras are detections of the second one")
                for c in self.cams(x.args[8]):
                    self.same("pair", e.where, i, c, "candidates listed for a pair of cameras belong to a detection of the first one")
        if fld == "p1" and e.val.op == "idx":
            L = self.loops.get(e.val)
            if L is not None:
                for c in self.cams(L.hi):
                    self.same("pair", e.where, i, c, "the detection of the first camera is listed")

    def ranges(self):
        """loops over cameras stay within the number of cameras"""
        wide = {"p", "whichcam"}
        for e in self.r.events:
            for v in self.values(e):
                for x in self.walk(v):
                    if x in self.seen or x.op != "sel" or not self.table(x.args[0]):
                        continue
                    self.seen.add(x)
                    k, b = x.args[1], x.args[0]
                    if fieldname(b) in wide and b.op == "sel":
                        continue
                    if k.op == "num" and k.args[0] > 0:
                        n = [y for c in conjuncts(e.guard) for y in self.walk(c) if self.cameras(y) or y.op == "len"]
                        cams = {y for y in n if self.cameras(y)}
                        v = [implied(e.guard, lt(k, y)) for y in cams]
                        if any(v):
                            self.ctx.hold("cameras", e.where)
                        else:
                            (self.ctx.unk if n and (len(cams) < len(set(n)) or None in v) else self.ctx.bad)("cameras", e.where, "%s is read for camera %s whatever their number" % (show(b, 3), show(k)))
                        continue
                    if k.op != "idx":
                        continue
                    L = self.loops.get(k)
                    if L is None:
                        continue
                    hi = L.hi
                    if hi.op == "num" and hi.args[0] > 1:
                        n = [y for c in conjuncts(e.guard) for y in self.walk(c) if fieldname(y) == "num_cams" or y.op == "len"]
                        (self.ctx.unk if n else self.ctx.bad)("cameras", e.where, "%s is read for %s cameras whatever their number" % (show(b, 3), show(hi)))
                    elif any(fieldname(y) == "num_cams" for y in self.walk(hi) if y.op == "sel") and hi.op == "poly":
                        n = [y for y in self.walk(hi) if y.op == "sel" and fieldname(y) == "num_cams"]
                        d = tm.sub(hi, n[0]) if len(n) == 1 else None
                        if d is not None and d.op == "num" and d.args[0] > 0:
                            self.ctx.bad("cameras", e.where, "%s is read beyond the last camera" % show(b, 3))
                        else:
                            self.ctx.hold("cameras", e.where)
                    else:
                        self.ctx.hold("cameras", e.where)
