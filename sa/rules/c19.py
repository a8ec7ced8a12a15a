"""C19: every slot of the frame buffer holds the time step it stands for."""
from ..rulekit import *
from .c17 import OP as OP17

TECHNIQUE = ("abstract interpretation of the tracking driver: the buffer operations of each phase (rotations, replaced slots, reads, writes, with their guards) are "
             "extracted from the value graph and run on slots holding abstract frame numbers, for every sequence length up to a bound; argument flow of file names "
             "and frame numbers through the frame and buffer classes")
NOTE = "the drivers call one step function per step from first to last-1 and the finishing one with last, as the package's users do; buffer of four slots"
OP = tuple(x for x in OP17 if not x.startswith("FrameBuf")) + ("Frame.read", "Frame.write")
N = 4
LENGTHS = (4, 5, 6, 9)
FIRST = 1000


class Unclear(Exception):
    pass


class Cell:
    """one frame object: the number it was read from, None when it never held a frame"""

    def __init__(self, num=None):
        self.num = num


def check(ctx):
    ctx.rule("Abstract run of forward and backward tracking over sequences of several lengths: at the start of every step slot k holds frame step-1+k (forward) or "
             "step+1-k (backward), or no frame beyond the ends of the sequence; every frame of the sequence is read exactly once, none outside it; every frame is "
             "written under its own number, the frames of all steps exactly once; reads and writes get each file base in its own place, forward reading no links and "
             "backward reading them; Frame.read and Frame.write pair each camera's file base, targets and count.")
    Drive(ctx, "forward").check()
    Drive(ctx, "backward").check()
    frames(ctx)
    construct(ctx)


class Drive:
    def __init__(self, ctx, way):
        self.ctx, self.way = ctx, way
        self.seen = {}

    def load(self, q):
        f = self.ctx.func("track", q)
        if f is None:
            self.ctx.unk("anchor", q, "not found")
            return None
        c = next((m.classes["TrackingRun"] for m in self.ctx.pkg.mods.values() if "TrackingRun" in getattr(m, "classes", {})), None)
        r = self.ctx.run("track", q, opaque=OP, types={f.params[0]: ("cls", c)} if c is not None else None)
        if r is None:
            return None
        run = f.params[0]
        ops = []
        for e in r.events:
            if e.kind == "mutate" and path(e.base) == run + ".fb.buf":
                ops.append(("rotate" if e.how == "rotate" else "other", e))
            elif e.kind == "store" and path(e.base) == run + ".fb.buf":
                ops.append(("slot", e))
            elif e.kind == "store" and path(e.base) == run + ".fb" and e.key.op == "str" and e.key.args[0] == "buf":
                ops.append(("other", e))
            elif e.kind == "call" and e.name in ("Frame.read", "Frame.write"):
                ops.append((e.name[6:], e))
        return f, r, ops

    # -- execution of the extracted operations
    def value(self, t):
        t = tm.subst(t, self.bind)
        if t.op == "num" and t.args[0].denominator == 1:
            return int(t.args[0])
        return None

    def enabled(self, g):
        for c in conjuncts(tm.subst(g, self.bind)):
            if c is TRUE:
                continue
            if c is FALSE:
                return False
            if any(x.op in ("exc", "excval") or (x.op == "call" and x.args[0].endswith(("Frame.read", "Frame.write"))) for x in walk(c)):
                continue
            if c.op == "not" and conjuncts(c.args[0]) == [TRUE]:
                return False
            raise Unclear("condition %s" % show(c, 4)[:80])
        return True

    def locate(self, t):
        """frame object denoted by a term"""
        if t.op == "obj":
            return self.objs.setdefault(t.id, Cell())
        if t.op != "sel":
            raise Unclear("frame %s" % show(t, 4)[:80])
        k = self.value(t.args[1])
        if k is None:
            raise Unclear("slot %s" % show(t, 4)[:80])
        return self.slot(t.args[0], k)

    def slot(self, b, k):
        if b.op == "rotated":
            n = self.value(b.args[1]) if len(b.args) > 1 else 1
            if n is None:
                raise Unclear("rotation")
            return self.slot(b.args[0], k - n)
        if b.op == "snap":
            over = dict()
            for a, v in b.args[1]:
                a = self.value(a) if isinstance(a, T) else a
                if a is None:
                    raise Unclear("slot")
                over[a % N] = v
            if k % N in over:
                return self.locate(over[k % N])
            return self.slot(b.args[0], k)
        if b.op in ("mu", "muout"):
            key = (b.op, b.args[0])
            for m in ("mu", "muout"):
                if b.op == m and self.marks.get(m) is not None:
                    return self.marks[m][k % N]
            raise Unclear("buffer of loop %s" % (key,))
        if path(b) == self.run + ".fb.buf":
            return self.marks["entry"][k % N]
        raise Unclear("buffer %s" % show(b, 4)[:80])

    def do(self, kind, e):
        if not self.enabled(e.guard):
            return
        if kind == "other":
            raise Unclear("buffer changed by %s" % e.where)
        if kind == "rotate":
            n = self.value(e.args[0]) if e.args else 1
            if n is None:
                raise Unclear("rotation")
            self.D = [self.D[(i - n) % N] for i in range(N)]
            return
        if kind == "slot":
            k = self.value(e.key)
            if k is None:
                raise Unclear("slot")
            v = e.val
            if v.op == "obj" and getattr(self.r.ip.objs.get(v), "kind", "inst") == "inst":
                c = self.objs[v.id] = Cell()
            else:
                c = self.locate(v)
            self.D[k % N] = c
            return
        cell = self.locate(e.args["self"])
        n = self.value(e.args.get("frame_num")) if e.args.get("frame_num") is not None else None
        if n is None:
            raise Unclear("number %s" % show(e.args.get("frame_num"), 4)[:80])
        self.done.append((kind, n, cell.num, e))
        if kind == "read":
            cell.num = n

    def execute(self, loaded, bind, body=None):
        """run the operations of one function; body(step value) is called at the start of every iteration of its step loop"""
        f, self.r, ops = loaded
        self.run = f.params[0]
        self.bind = dict(bind)
        self.marks = {"entry": list(self.D)}
        i = 0
        while i < len(ops):
            kind, e = ops[i]
            if not e.loops:
                self.do(kind, e)
                i += 1
                continue
            L = e.loops[0]
            j = i
            while j < len(ops) and ops[j][1].loops and ops[j][1].loops[0] is L:
                if len(ops[j][1].loops) > 1:
                    raise Unclear("buffer operation inside a loop over particles")
                j += 1
            lo, hi = self.value(L.lo), self.value(L.hi)
            if L.kind != "for" or lo is None or hi is None or hi - lo > 100:
                raise Unclear("loop at %s" % e.where)
            for v in (range(hi - 1, lo - 1, -1) if L.rev else range(lo, hi)):
                self.marks["mu"] = list(self.D)
                self.bind[L.idx] = num(v)
                if body is not None:
                    body(v)
                for kd, x in ops[i:j]:
                    self.do(kd, x)
                del self.bind[L.idx]
            self.marks["muout"] = list(self.D)
            i = j

    def layout(self, step, sign, first, last):
        """frames in the slots at the start of a step"""
        for k in range(N):
            want = step + sign * (k - 1)
            got = self.D[k].num
            if first <= want <= last:
                if got != want:
                    return "in step %s slot %d holds frame %s, not %s" % (rel(step, first, last), k, rel(got, first, last), rel(want, first, last))
            elif got is not None and (want > last if sign > 0 else want < first):
                if sign < 0 and k == 3:
                    continue       # the frames before the first one are never asked for: the first frame's particles have no predecessor
                return "in step %s slot %d holds frame %s, although no frame comes there" % (rel(step, first, last), k, rel(got, first, last))
        return None

    def check(self):
        ctx = self.ctx
        names = ("track_forward_start", "trackcorr_c_loop", "trackcorr_c_finish") if self.way == "forward" else ("trackback_c",)
        L = [self.load(q) for q in names]
        if any(x is None for x in L):
            return
        ls = LENGTHS if ctx.tier == "quick" else tuple(range(4, 17))
        for n in ls if self.way == "backward" else (3,) + ls:
            self.one(names, L, FIRST, FIRST + n - 1)
        for q, x in zip(names, L):
            self.sources(q, x)

    def one(self, names, L, first, last):
        ctx = self.ctx
        tag = "%s over %d frames" % (self.way, last - first + 1)
        self.D = [Cell() for _ in range(N)]
        self.objs, self.done = {}, []
        bad = []
        f0 = L[0][0]

        def env(f, step=None):
            run = mk("sym", f.params[0])
            sp = mk("sel", run, string("seq_par"))
            d = {mk("sel", sp, string("first")): num(first), mk("sel", sp, string("last")): num(last)}
            if step is not None:
                d[mk("sym", f.params[1])] = num(step)
            return d
        try:
            if self.way == "forward":
                self.execute(L[0], env(L[0][0]))
                for s in range(first, last):
                    m = self.layout(s, 1, first, last)
                    if m:
                        bad.append(m)
                        break
                    self.execute(L[1], env(L[1][0], s))
                if not bad:
                    self.execute(L[2], env(L[2][0], last))
            else:
                steps = []

                def body(v):
                    steps.append(v)
                    m = self.layout(v, -1, first, last)
                    if m:
                        bad.append(m)
                self.execute(L[0], env(f0), body)
                if not bad and steps != list(range(last - 1, first, -1)):
                    bad.append("the steps visited are %s" % [rel(s, first, last) for s in steps])
        except Unclear as ex:
            ctx.unk("run", tag, str(ex))
            return
        if bad:
            ctx.bad("layout", "%s (%s)" % (where(L[0][0]), ", ".join(names)), "%s: %s" % (tag, bad[0]))
        else:
            ctx.hold("layout", tag)
        self.ledger(tag, first, last, bool(bad))

    def ledger(self, tag, first, last, broken):
        ctx = self.ctx
        reads = [n for k, n, _, _ in self.done if k == "read"]
        for k, n, held, e in self.done:
            if k == "read" and not first <= n <= last:
                ctx.bad("read range", e.where, "%s: frame %s is read, outside the sequence" % (tag, rel(n, first, last)))
            if k == "write" and held != n:
                ctx.bad("written number", e.where, "%s: frame %s is written under number %s" % (tag, rel(held, first, last), rel(n, first, last)))
            elif k == "write":
                ctx.hold("written number", e.where)
        if broken:
            return
        w = [n for k, n, _, _ in self.done if k == "write"]
        want = set(range(first, last + 1)) if self.way == "forward" else set(range(first, last))
        for name, got, need in (("read", reads, set(range(first, last + 1))), ("written", w, want)):
            twice = sorted({n for n in got if got.count(n) > 1})
            miss = sorted(need - set(got))
            if twice:
                ctx.bad("every frame once", tag, "frame %s is %s twice" % (rel(twice[0], first, last), name))
            elif miss:
                ctx.bad("every frame once", tag, "frame %s is never %s" % (rel(miss[0], first, last), name))
            else:
                ctx.hold("every frame once", "%s, %s" % (tag, name))

    def sources(self, q, loaded):
        """files a frame is read from and written to"""
        ctx = self.ctx
        f, r, ops = loaded
        fb = mk("sel", mk("sym", f.params[0]), string("fb"))
        for kind, e in ops:
            if kind not in ("read", "write"):
                continue
            for a in ("corres_file_base", "linkage_file_base", "prio_file_base", "target_file_base"):
                t = e.args.get(a)
                if t is None:
                    ctx.unk("file base", e.where, "argument %s not found" % a)
                    continue
                want = mk("sel", fb, string(a))
                links = a in ("linkage_file_base", "prio_file_base")
                if kind == "read" and links and self.way == "forward":
                    if t.op == "str" and t.args[0] == "":
                        ctx.hold("file base", e.where)
                    elif path(t) is not None and path(t).startswith(path(fb) + "."):
                        ctx.bad("file base", e.where, "forward tracking reads links of an earlier run: %s is %s" % (a, show(t)))
                    else:
                        ctx.unk("file base", e.where, "%s is %s" % (a, show(t, 4)[:60]))
                elif t is want:
                    ctx.hold("file base", e.where)
                elif path(t) is not None and path(t).startswith(path(fb) + "."):
                    ctx.bad("file base", e.where, "%s %ss %s as %s" % (q, kind, show(t), a))
                elif t.op == "str" and t.args[0] == "" and kind == "read":
                    ctx.bad("file base", e.where, "%s reads no links: %s is empty" % (q, a))
                else:
                    ctx.unk("file base", e.where, "%s is %s" % (a, show(t, 4)[:60]))


def rel(n, first, last):
    if n is None:
        return "none"
    return "first%s" % ("%+d" % (n - first) if n != first else "") if n - first <= (last - first) / 2 else "last%s" % ("%+d" % (n - last) if n != last else "")


# ------------------------------------------------------------ frames
OPF = ("read_path_frame", "read_targets", "write_path_frame", "write_targets")


def frames(ctx):
    for q in ("Frame.read", "Frame.write"):
        f = ctx.func("tracking_frame_buf", q)
        if f is None:
            ctx.unk("anchor", q, "not found")
            continue
        r = ctx.run("tracking_frame_buf", q, opaque=OPF)
        if r is None:
            continue
        me = mk("sym", f.params[0])
        P = {p: mk("sym", p) for p in f.params[1:]}
        fld = lambda n: mk("sel", me, string(n))
        calls = [e for e in r.ev("call") if e.name in OPF]
        for e in calls:
            if e.name.endswith("path_frame"):
                want = {"corres_file_base": P.get("corres_file_base"), "linkage_file_base": P.get("linkage_file_base"), "prio_file_base": P.get("prio_file_base"),
                        "frame_num": P.get("frame_num"), "cor_buf": fld("correspond"), "path_buf": fld("path_info"), "num_parts": fld("num_parts")}
                for a, t in e.args.items():
                    argcheck(ctx, q, e, a, t, want.get(a))
            else:
                fb = P.get("target_file_base")
                t = e.args.get("file_base")
                i = t.args[1] if t is not None and t.op == "sel" and t.args[0] is fb else None
                if i is None:
                    ctx.unk("camera", e.where, "file base %s" % (show(t, 4)[:60] if t is not None else None))
                    continue
                argcheck(ctx, q, e, "frame_num", e.args.get("frame_num"), P.get("frame_num"))
                for a, n in (("targets", "targets"), ("num_targets", "num_targets")):
                    if a in e.args:
                        argcheck(ctx, q, e, a, e.args[a], mk("sel", fld(n), i))
                if q == "Frame.write":
                    cover(ctx, q, e, i, fld("num_cams"))
        if q == "Frame.read":
            stored(ctx, q, r, me, P)


def argcheck(ctx, q, e, a, t, want):
    if want is None or t is None:
        ctx.unk("argument", e.where, "%s of %s" % (a, e.name))
    elif t is want:
        ctx.hold("argument", e.where)
    elif path(t) is not None:
        ctx.bad("argument", e.where, "%s passes %s as %s of %s, not %s" % (q, show(t), a, e.name, show(want)))
    else:
        ctx.unk("argument", e.where, "%s passes %s as %s" % (q, show(t, 4)[:60], a))


def cover(ctx, q, e, i, n):
    """the loop over cameras runs over all of them"""
    if i.op != "idx" or not e.loops or e.loops[-1].idx is not i:
        ctx.unk("cameras", e.where, "index %s" % show(i, 3))
        return
    L = e.loops[-1]
    d = tm.sub(L.hi, n)
    if L.lo is ZERO and d is ZERO:
        ctx.hold("cameras", e.where)
    elif L.lo.op == "num" and d.op == "num":
        ctx.bad("cameras", e.where, "%s treats cameras %s to %s only" % (q, show(L.lo), show(L.hi)))
    else:
        ctx.unk("cameras", e.where, "cameras %s to %s" % (show(L.lo, 3)[:40], show(L.hi, 3)[:40]))


def stored(ctx, q, r, me, P):
    """what was read ends in the fields it belongs to"""
    def source(t):
        """(call name, part or None, key args) of a term holding a result of a reading function"""
        part = None
        if t.op == "sel" and t.args[0].op == "call" and t.args[1].op == "num":
            part, t = int(t.args[1].args[0]), t.args[0]
        if t.op == "call" and t.args[0].split(".")[-1] in OPF:
            return t.args[0].split(".")[-1], part, t.args[1:]
        return None
    fld = lambda n: mk("sel", me, string(n))
    for e in r.ev("store"):
        v = e.val
        if e.base is me and e.key.op == "str":
            n = e.key.args[0]
            want = {"correspond": ("read_path_frame", 0), "path_info": ("read_path_frame", 1)}.get(n)
            if want:
                s = source(v)
                if s is None:
                    ctx.unk("stored", e.where, "%s is %s" % (n, show(v, 4)[:60]))
                elif s[:2] == want:
                    ctx.hold("stored", e.where)
                else:
                    ctx.bad("stored", e.where, "field %s gets part %s of %s" % (n, s[1], s[0]))
            elif n == "num_parts" and v.op in ("len", "size"):
                s = source(v.args[0])
                (ctx.hold if s and s[0] == "read_path_frame" else ctx.unk)("stored", e.where)
        elif e.base is fld("targets") or e.base is fld("num_targets"):
            t = v
            if e.base is fld("num_targets"):
                if v.op not in ("len", "size"):
                    ctx.unk("stored", e.where, "count %s" % show(v, 4)[:60])
                    continue
                t = v.args[0]
                if t.op == "sel" and (t.args[0] is fld("targets") or t.args[0].op == "mu" and t.args[0].args[1] == ("i", fld("targets").id)):
                    same_index(ctx, e, t.args[1])
                    continue
            s = source(t)
            fbase = s and s[2] and next((x for x in s[2] if x.op == "sel" and x.args[0] is P.get("target_file_base")), None)
            if not fbase:
                ctx.unk("stored", e.where, "targets %s" % show(t, 4)[:60])
                continue
            same_index(ctx, e, fbase.args[1])
            if e.base is fld("targets"):
                cover(ctx, q, e, e.key, fld("num_cams"))


def same_index(ctx, e, i):
    if e.key is i:
        ctx.hold("camera", e.where)
    elif compare(e.key, i)[0] == "ne":
        ctx.bad("camera", e.where, "targets of camera %s are stored for camera %s" % (show(i), show(e.key)))
    else:
        ctx.unk("camera", e.where, "%s and %s" % (show(i, 3), show(e.key, 3)))


def construct(ctx):
    q = "TrackingRun.__init__"
    f = ctx.func("tracking_run", q)
    if f is None:
        ctx.unk("anchor", q, "not found")
        return
    r = ctx.run("tracking_run", q, opaque=("volumedimension",))
    if r is None:
        return
    me = mk("sym", f.params[0])
    for names, want in ((("fb", "corres_file_base"), ("corres_file_base",)), (("fb", "linkage_file_base"), ("linkage_file_base",)), (("fb", "prio_file_base"), ("prio_file_base",)),
                        (("fb", "target_file_base"), ("seq_par", "img_base_name")), (("fb", "num_cams"), ("cpar", "num_cams")), (("seq_par",), ("seq_par",)),
                        (("cal",), ("cal",)), (("cpar",), ("cpar",))):
        try:
            t = r.field(me, *names)
        except Exception:
            ctx.unk("fields", ".".join(names), "not found")
            continue
        w = mk("sym", want[0])
        for n in want[1:]:
            w = mk("sel", w, string(n))
        if want[0] not in f.params:
            ctx.unk("fields", ".".join(names), "no parameter %s" % want[0])
        elif t is w:
            ctx.hold("fields", ".".join(names))
        elif path(t) is not None and root(t) is not None and not mentions(t, me):
            ctx.bad("fields", where(f), "%s of the tracking run is %s, not %s" % (".".join(names), show(t), show(w)))
        else:
            ctx.unk("fields", ".".join(names), show(t, 4)[:60])
    # every slot has a frame of its own
    for e in [e for e in r.ev("new") if e.d.get("cls") == "Frame"]:
        (ctx.hold if e.loops else ctx.bad)("own frame", e.where, *(() if e.loops else ("all slots of the buffer share one frame",)))
