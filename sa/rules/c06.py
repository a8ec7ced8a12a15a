"""C06: parameters and their files."""
from ..rulekit import *

TECHNIQUE = ("symbolic execution of the parsers' source over an abstract line stream: value provenance (which line, which conversion) of every "
             "field compared with the format table; dataflow of writers, dictionary/YAML conversions, getters and setters")

# file formats: one entry per line, (field path, kind)
FORMATS = {
    "TrackPar": ["dvxmin f", "dvxmax f", "dvymin f", "dvymax f", "dvzmin f", "dvzmax f", "dangle f", "dacc f", "add i"],
    "VolumePar": ["x_lay.0 f", "z_min_lay.0 f", "z_max_lay.0 f", "x_lay.1 f", "z_min_lay.1 f", "z_max_lay.1 f",
                  "cnx f", "cny f", "cn f", "csumg f", "corrmin f", "eps0 f"],
    "TargetPar": ["gvthresh.0 i", "gvthresh.1 i", "gvthresh.2 i", "gvthresh.3 i", "discont i", "nnmin i", "nnmax i", "nxmin i",
                  "nxmax i", "nymin i", "nymax i", "sumg_min i", "cr_sz i"],
    "OrientPar": ["useflag i", "ccflag i", "xhflag i", "yhflag i", "k1flag i", "k2flag i", "k3flag i", "p1flag i", "p2flag i",
                  "scxflag i", "sheflag i", "interfflag i"],
    "ExaminePar": ["examine_flag b", "combine_flag b"],
    "PftVersionPar": ["existing_target_flag b"],
}
READERS = {"TrackPar": "read_track_par", "VolumePar": "read_volume_par", "TargetPar": "read_target_par", "SequencePar": "read_sequence_par",
           "ControlPar": "read_control_par", "CalibrationPar": "read_cal_ori_parameters", "ExaminePar": "read_examine_par"}
DEFAULTS = {"TrackPar": ["dsumg", "dn", "dnx", "dny"]}


def formats(n):
    d = dict(FORMATS)
    d["SequencePar"] = ["img_base_name.%d s" % i for i in range(n)] + ["first i", "last i"]
    d["ControlPar"] = ["num_cams i"] + [x for i in range(n) for x in ("img_base_name.%d s" % i, "cal_img_base_name.%d s" % i)] + [
        "hp_flag i", "all_cam_flag i", "tiff_flag i", "imx i", "imy i", "pix_x f", "pix_y f", "chfield i", "mm.n1 f", "mm.n2.0 f",
        "mm.n3 f", "mm.d.0 f"]
    d["CalibrationPar"] = ["fixp_name s"] + [x for i in range(n) for x in ("img_name.%d s" % i, "img_ori0.%d s" % i)] + [
        "tiff_flag i", "pair_flag i", "chfield i"]
    d["MultiPlanesPar"] = ["num_planes i"] + ["filename.%d s" % i for i in range(n)]
    return d


def parse(line, kind):
    if kind == "s":
        return line
    t = mk("fn", "pfloat" if kind == "f" else "pint", line)
    if kind == "i" or kind == "b":
        INTS.add(t)
    return mk("truth", t) if kind == "b" else t


def strip(t):
    while t.op == "fn" and t.args[0] in ("strip", "rstrip", "lstrip") and len(t.args) == 2:
        t = t.args[1]
    return t


def check(ctx):
    ctx.rule("Each parser is executed symbolically over a stream of abstract lines; every field of the result has to be the line that the "
             "format table assigns to it, converted to its kind, for one to four cameras. The text written by writers is reconstructed "
             "token by token. Dictionary and YAML conversions are composed with their inverses, getters and setters compared with their fields.")
    mod = ctx.pkg.mods.get("parameters")
    if mod is None:
        return
    seen = set()
    for n in (1, 2, 3, 4):
        for cname, fmt_ in formats(n).items():
            if cname in FORMATS and n > 1:
                continue
            for q in (cname + ".from_file", READERS.get(cname)):
                f = q and ctx.pkg.func("parameters", q)
                if f is None:
                    continue
                args = {"num_cams": num(n)} if "num_cams" in f.params else {}
                lines = {0: num(n)} if cname in ("ControlPar", "MultiPlanesPar") else {}
                r = ctx.run("parameters", q, args, lines=lines)
                if r is None or (cname, q) in seen and n == 1:
                    continue
                seen.add((cname, q))
                reader(ctx, f, r, cname, q, fmt_, n, lines)
    for cname in FORMATS:
        for w in ("write_" + {"TargetPar": "target_par"}.get(cname, "?"), cname + ".write"):
            f = ctx.pkg.func("parameters", w)
            if f is not None:
                writer(ctx, f, w, cname)
    conversions(ctx, mod)
    accessors(ctx)


def reader(ctx, f, r, cname, q, fmt_, n, lines):
    where_ = where(f)
    files = {x for e in r.ev("open") for x in [e.file]}
    got = {}
    fp = None
    counts = {}
    for i, l in enumerate(fmt_):
        p, kind = l.split()
        parts = p.split(".")
        if parts[-1].isdigit():
            counts.setdefault(".".join(parts[:-1]), 0)
            counts[".".join(parts[:-1])] += 1
        try:
            t = r.value
            for x in parts:
                t = r.elem(t, int(x)) if x.isdigit() else r.ip.getattr(r.st, t, x, None)
            t = r.ip.snap(r.st, t)
        except (Undecided, TooBig) as ex:
            ctx.unk("read:%s" % cname, where_, str(ex))
            continue
        t = strip(t)
        # file the values come from
        src = next((x.args[0] for x in walk(t) if x.op == "line"), None)
        if fp is None:
            fp = src
        if i in lines:
            if t == lines[i]:
                ctx.hold("read:%s" % cname, where_, "%s is the count in line %d" % (p, i + 1))
            elif unclear(t):
                ctx.unk("read:%s" % cname, where_, "%s is the count in line %d" % (p, i + 1))
            else:
                ctx.bad("read:%s" % cname, where_, "%s is not the count in line %d but %s" % (p, i + 1, show(t, 4)))
            continue
        if src is None:
            if unclear(t) or any(e.d["key"].op == "dynkey" for e in r.ev("store")):
                ctx.unk("read:%s" % cname, where_, "%s read in another way" % p)
            else:
                ctx.bad("read:%s" % cname, where_, "%s is not taken from line %d of the file but is %s" % (p, i + 1, show(t, 4)))
            continue
        want = parse(mk("line", src, num(i)), kind)
        if t == want:
            ctx.hold("read:%s" % cname, where_, "%s from line %d of %s" % (p, i + 1, q))
            continue
        ls = [x for x in walk(t) if x.op == "line"]
        if len(set(ls)) == 1 and ls[0].args[1].op == "num" and ls[0].args[1] != num(i):
            ctx.bad("read:%s" % cname, where_, "%s is taken from line %s, the format has it in line %d" % (p, show(add(ls[0].args[1], ONE)), i + 1))
        elif len(set(ls)) == 1 and ls[0].args[1] == num(i) and t.op == "fn" and t.args[0] in ("pint", "pfloat") and kind == "f" and t.args[0] == "pint":
            ctx.bad("read:%s" % cname, where_, "%s is read as an integer" % p)
        elif len(set(ls)) == 1 and kind in "if" and compare(t, want)[0] == "ne":
            ctx.bad("read:%s" % cname, where_, "%s is changed while reading: %s" % (p, show(t, 5)))
        elif t.op == "truth" and kind == "b" or t == parse(mk("line", src, num(i)), "f"):
            ctx.hold("read:%s" % cname, where_, p)
        else:
            ctx.unk("read:%s" % cname, where_, "%s = %s" % (p, show(t, 5)))
    for p, c in counts.items():
        t = r.value
        for x in p.split("."):
            t = r.ip.getattr(r.st, t, x, None)
        t = r.ip.snap(r.st, t)
        if t.op == "seq":
            ctx.add("read:%s" % cname, HOLDS if len(elems(t)) == c or p.startswith("mm.") else VIOLATED, where_, "%s has %d entries" % (p, c))
    for p in DEFAULTS.get(cname, ()):
        t = r.ip.snap(r.st, r.ip.getattr(r.st, r.value, p, None))
        ctx.same("read:%s" % cname, where_, t, ZERO, "%s, which the file does not hold, starts at zero" % p)


def unclear(t):
    """a value whose origin is not recognised"""
    return any(x.op in ("fread", "flines", "line", "call", "unk", "mu", "none", "dynattr", "comp") for x in walk(t))


def writer(ctx, f, w, cname):
    r = ctx.run("parameters", w)
    if r is None:
        return
    ls = written(r)
    obj = mk("sym", f.params[0])
    if ls is None:
        return ctx.unk("write:" + cname, where(f), "text not reconstructed")
    ls = [l for l in ls if l]
    fmt_ = FORMATS[cname]
    if len(ls) != len(fmt_):
        # the tokens may still be on lines of their own
        return ctx.bad("write:" + cname, where(f), "%d lines are written, the format has %d" % (len(ls), len(fmt_)))
    for i, (l, d) in enumerate(zip(ls, fmt_)):
        p, kind = d.split()
        want = obj
        for x in p.split("."):
            want = mk("sel", want, num(int(x)) if x.isdigit() else string(x))
        v = tokval(l[0]) if len(l) == 1 else None
        if v is None:
            ctx.bad("write:" + cname, where(f), "line %d does not hold one value" % (i + 1))
            continue
        while v.op == "fn" and v.args[0] in ("int", "float", "str") or v.op == "phi" and v.args[1] == ONE:
            v = v.args[1] if v.op == "fn" else v.args[0]
        while v.op == "truth":
            v = v.args[0]
        if v == want:
            ctx.hold("write:" + cname, where(f), "line %d is %s" % (i + 1, p))
        elif v.op in ("sel", "sym", "num", "str"):
            ctx.bad("write:" + cname, where(f), "line %d holds %s, the format has %s" % (i + 1, show(v), p))
        else:
            ctx.unk("write:" + cname, where(f), show(v, 4))


def undict(t, over):
    """entries read from a file replaced by what was written to it"""
    return t


def conversions(ctx, mod):
    from ..spec import __name__ as _n  # noqa: F401
    x = mk("sym", "x")
    for cname, cls in mod.classes.items():
        flds = ctx.pkg.fields(cls)
        if not cls.dataclass or not flds:
            continue
        w = "%s (%s)" % (mod.path, cname)
        try:
            r = ctx.spec("s_rt_" + cname)
        except KeyError:
            continue
        except (Undecided, TooBig) as ex:
            ctx.unk("dict:" + cname, w, str(ex))
            continue
        fields_same(ctx, "dict:" + cname, w, r, r.value, flds, x, "the dictionary conversion")
        # YAML
        fy, fw = (ctx.pkg.method(cls, k) for k in ("from_yaml", "to_yaml"))
        if fy is None or fw is None:
            continue
        try:
            ip = Interp(ctx.pkg)
            xs = mk("sym", "x")
            ip.set_type(xs, ("cls", cls))
            v, st = ip.start(fw, {fw.params[0]: xs})
            wr = Run(fw, ip, v, st)
            ip2 = Interp(ctx.pkg)
            v2, st2 = ip2.start(fy, {fy.params[0]: ip2.wrap(("cls", cls))})
            rd = Run(fy, ip2, v2, st2)
        except (Undecided, TooBig) as ex:
            ctx.unk("yaml:" + cname, w, str(ex))
            continue
        dumps = [e.val.args[0] for e in wr.ev("fwrite") if e.val.op == "yamldump"]
        if len(dumps) != 1:
            ctx.unk("yaml:" + cname, where(fw), "dump not found")
            continue
        for f, an, d, c in flds:
            t = rd.field(rd.value, f)
            t = unyaml(t, dumps[0])
            one_field(ctx, "yaml:" + cname, where(fw), f, t, mk("sel", x, string(f)), "the YAML conversion")


def unyaml(t, d):
    if t.op == "getkw":
        b = unyaml(t.args[0], d)
        return kwget(b, t.args[1], *t.args[2:])
    if t.op == "yaml":
        return d
    if t.op == "snap":
        return mk("snap", unyaml(t.args[0], d), tuple((k, unyaml(v, d)) for k, v in t.args[1]))
    if t.op == "rec":
        return mk("rec", t.args[0], tuple((k, unyaml(v, d)) for k, v in t.args[1]))
    if t.op == "phi":
        return phi(t.args[0], unyaml(t.args[1], d), unyaml(t.args[2], d))
    return t


def fields_same(ctx, key, w, r, v, flds, x, what):
    for f, an, d, c in flds:
        one_field(ctx, key, w, f, r.field(v, f), mk("sel", x, string(f)), what)


def one_field(ctx, key, w, f, t, want, what):
    if t.op == "rec":
        for k, v in t.args[1]:
            one_field(ctx, key, w, f + "." + k, v, mk("sel", want, string(k)), what)
        return
    while t.op in ("snap", "cp") and not (t.op == "snap" and t.args[1]):
        t = t.args[0]
    if t == want:
        ctx.hold(key, w, "%s carries %s unchanged" % (what, f))
    elif t.op in ("sel", "num", "str", "seq", "none", "sym", "poly") and not contains(t, lambda z: z.op in ("call", "unk")):
        ctx.bad(key, w, "%s gives %s the value %s" % (what, f, show(t, 5)))
    elif t.op == "getkw" and t.args[0].op in ("snap", "emptydict") and t.args[1].op == "str" and len(t.args) == 2 and dictlike(t.args[0]):
        ctx.bad(key, w, "%s loses %s" % (what, f))
    else:
        ctx.unk(key, w, "%s: %s" % (f, show(t, 5)))


def dictlike(t):
    while t.op == "snap":
        if any(k.op != "str" for k, _ in t.args[1]):
            return False
        t = t.args[0]
    return t.op == "emptydict"


GET = {
    "MultimediaPar": {"get_nlay": "nlay", "get_n1": "n1", "get_n3": "n3", "get_n2": "n2", "get_d": "d"},
    "SequencePar": {"get_first": "first", "get_last": "last"},
    "TrackPar": {"get_dvxmin": "dvxmin", "get_dvxmax": "dvxmax", "get_dvymin": "dvymin", "get_dvymax": "dvymax", "get_dvz_min": "dvzmin",
                 "get_dvz_max": "dvzmax", "get_dangle": "dangle", "get_dacc": "dacc", "get_add": "add", "get_dsumg": "dsumg",
                 "get_dn": "dn", "get_dnx": "dnx", "get_dny": "dny"},
    "ControlPar": {"get_image_size": ("imx", "imy"), "get_pixel_size": ("pix_x", "pix_y"), "get_chfield": "chfield",
                   "get_multimedia_par": "mm", "get_multimedia_params": "mm", "get_num_cams": "num_cams", "get_hp_flag": "hp_flag",
                   "get_allCam_flag": "all_cam_flag", "get_tiff_flag": "tiff_flag"},
    "TargetPar": {"get_grey_thresholds": "gvthresh", "get_pixel_count_bounds": ("nnmin", "nnmax"), "get_xsize_bounds": ("nxmin", "nxmax"),
                  "get_ysize_bounds": ("nymin", "nymax"), "get_min_sum_grey": "sumg_min"},
    "Target": {"pos": ("x", "y"), "count_pixels": ("n", "nx", "ny"), "sum_grey_value": "sumg"},
}
SET = {
    "MultimediaPar": {"set_n1": ["n1"], "set_n3": ["n3"], "set_layers": ["n2", "d"]},
    "SequencePar": {"set_first": ["first"], "set_last": ["last"], "set_img_base_name": ["img_base_name"]},
    "TrackPar": {"set_dsumg": ["dsumg"], "set_dn": ["dn"], "set_dnx": ["dnx"], "set_dny": ["dny"]},
    "VolumePar": {"set_z_min_lay": ["z_min_lay"], "set_z_max_lay": ["z_max_lay"], "set_cn": ["cn"], "set_cnx": ["cnx"],
                  "set_csumg": ["csumg"], "set_eps0": ["eps0"], "set_corrmin": ["corrmin"]},
    "ControlPar": {"set_image_size": [("imx", "imy")], "set_pixel_size": [("pix_x", "pix_y")], "set_chfield": ["chfield"],
                   "set_hp_flag": ["hp_flag"]},
    "Target": {"set_pos": [("x", "y")], "set_pnr": ["pnr"], "set_pixel_counts": ["n", "nx", "ny"], "set_sum_grey_value": ["sumg"]},
}
LISTS = {"n2", "d", "img_base_name", "z_min_lay", "z_max_lay"}


CALIB = {"get_pos": [("ext_par", k) for k in ("x0", "y0", "z0")], "get_angles": [("ext_par", k) for k in ("omega", "phi", "kappa")],
         "get_primary_point": [("int_par", k) for k in ("xh", "yh", "cc")], "get_radial_distortion": [("added_par", k) for k in (0, 1, 2)],
         "get_decentering": [("added_par", k) for k in (3, 4)], "get_affine": [("added_par", k) for k in (5, 6)], "get_glass_vec": [("glass_par", k) for k in (0, 1, 2)]}


def blocks(ctx):
    """the points of the calibration target"""
    q = "read_calblock"
    f = ctx.pkg.func("sortgrid", q)
    if f is None:
        return
    r = ctx.run("sortgrid", q)
    if r is None:
        return
    names = dtype_fields(ctx.pkg, "Coord3d_dtype") or []
    if set(names) != {"pnr", "x", "y", "z"}:
        return ctx.unk("block", where(f), "type of the points not recognised")
    seen = 0
    for e in r.ev("mutate"):
        v = e.d.get("val")
        if e.d.get("how") != "append" or v is None:
            continue
        rec = record(r, v, names)
        if rec is None:
            y = r.ip.snap(r.st, v)
            while y.op == "seq" and len(elems(y)) == 1:
                y = elems(y)[0]
            if y.op == "seq" and len(elems(y)) == 4:
                rec = dict(zip(names, elems(y)))
        if rec is None or set(rec) != set(names):
            continue
        seen += 1
        for col, k in enumerate(("pnr", "x", "y", "z")):
            at = {x.args[1] for x in walk(rec[k]) if x.op == "sel" and is_int_const(x.args[1]) and any(y.op == "split" or y.op == "fn" and y.args[0] == "split" for y in walk(x.args[0]))}
            if len(at) != 1:
                ctx.unk("block", e.where, "%s of a point" % k)
                continue
            n = int(at.pop().args[0]) % 4
            (ctx.hold if n == col else ctx.bad)("block", e.where, "%s of a point of the target is column %d of its line, taken from column %d" % (k, col, n))
    if not seen:
        ctx.unk("block", where(f), "points not recognised")


def find(ctx, q):
    for m in ctx.pkg.mods.values():
        if not m.name.startswith("spec") and ctx.pkg.func(m.name, q) is not None:
            return m.name
    return None


def accessors(ctx):
    for cname, tab in GET.items():
        for m, fld in tab.items():
            md = find(ctx, cname + "." + m)
            if md is None:
                continue
            f = ctx.pkg.func(md, cname + "." + m)
            if len(f.params) != 1:
                continue
            r = ctx.run(md, cname + "." + m)
            if r is None:
                continue
            s = mk("sym", f.params[0])
            if isinstance(fld, tuple):
                want = seq([mk("sel", s, string(k)) for k in fld], "tuple")
                got = r.ret()
                if got.op == "seq":
                    got = seq(list(elems(got)), "tuple")
            else:
                want, got = mk("sel", s, string(fld)), r.ret()
            if got.op == "cp" or got.op == "fn" and got.args[0] in ("list",):
                got = got.args[0] if got.op == "cp" else got.args[1]
            ctx.same("get:%s.%s" % (cname, m), where(f), got, want, "returns %s" % (fld,))
    for cname, tab in SET.items():
        for m, flds in tab.items():
            md = find(ctx, cname + "." + m)
            if md is None:
                continue
            f = ctx.pkg.func(md, cname + "." + m)
            if len(f.params) != 1 + len(flds):
                continue
            args, want = {}, {}
            for p, k in zip(f.params[1:], flds):
                if isinstance(k, tuple):
                    args[p] = vec("arg:" + p, len(k), "tuple")
                    want.update(zip(k, elems(args[p])))
                elif k in LISTS:
                    args[p] = vec("arg:" + p, 2, "list")
                    want[k] = args[p]
                else:
                    want[k] = mk("sym", p)
            r = ctx.run(md, cname + "." + m, args)
            if r is None:
                continue
            s = mk("sym", f.params[0])
            for k, w in want.items():
                got = r.field(s, k)
                if got.op == "seq" and w.op == "seq":
                    got = seq(list(elems(got)), "list")
                ctx.same("set:%s.%s" % (cname, m), where(f), got, w, "sets %s to its argument" % k)
    for m, pths in CALIB.items():
        f = ctx.pkg.func("calibration", "Calibration." + m)
        if f is None or len(f.params) != 1:
            continue
        p = f.params[0]
        r = ctx.run("calibration", "Calibration." + m, sets=((p + ".added_par", vec("ap", 7)), (p + ".glass_par", vec("glass", 3))))
        if r is None:
            continue
        given = {"added_par": vec("ap", 7), "glass_par": vec("glass", 3)}
        for i, pth in enumerate(pths):
            a, k = pth
            want = elems(given[a])[k] if a in given else mk("sel", mk("sel", mk("sym", p), string(a)), string(k))
            try:
                got = r.elem(r.ret(), i)
            except (Undecided, TooBig) as ex:
                ctx.unk("get:Calibration." + m, where(f), str(ex))
                continue
            ctx.same("get:Calibration." + m, where(f), got, want, "entry %d is %s of %s" % (i, k, a))
    blocks(ctx)
    r = None
    f = ctx.pkg.func("parameters", "convert_track_par_to_tuple")
    if f is not None:
        try:
            r = ctx.spec("s_track_tuple")
        except (Undecided, TooBig) as ex:
            ctx.unk("tuple", where(f), str(ex))
    if r is not None and r.value.op == "obj":
        x = mk("sym", "x")
        for fl, an, d, c in ctx.pkg.fields(ctx.pkg.mods["parameters"].classes["TrackPar"]):
            one_field(ctx, "tuple", where(f), fl, r.field(r.value, fl), mk("sel", x, string(fl)), "the tuple for compiled code")
