"""C21: missing or unwritable files are reported."""
from ..rulekit import *
from ..ioflow import *

TECHNIQUE = ("interprocedural exception-flow and typestate analysis over the syntax tree: every operation on a file forks into success and failure; on the failing paths through handlers, status "
             "variables, existence tests and callers the routine must end in an exception or in a result it never gives on success")
NOTE = "Failures counted are opening, writing and closing; a file that opens but holds wrong text is not."

# documented to fall back to a default value
DEFAULTS = {"read_sortgrid_par"}


def check(ctx):
    ctx.rule("For every routine of the package that opens, reads or writes files itself or through others: on each path on which an operation failed (or an existence test was negative and no other "
             "file was opened instead) it raises, or returns a value it does not return on any path without a failure. The tracking loops do not read or write further files after a failure.")
    fl = Flow(ctx.pkg)
    n = 0
    for f in sorted(fl.io, key=lambda f: (f.mod.name, f.qual)):
        try:
            s = fl.summary(f)
        except RecursionError:
            ctx.unk("flow:" + f.qual, where(f), "too deep")
            continue
        ctx.analysed.add("%s.%s" % (f.mod.name, f.qual))
        key = "%s.%s" % (f.mod.name, f.qual)
        if f.name in DEFAULTS or not s.sites and not s.rets:
            continue
        n += 1
        done = set()
        for v, x, node in s.rets:
            same = {a for a in v if a in s.ok or a == DATA and UNK in s.ok}
            k = (node.lineno, frozenset(map(repr, v)))
            if k in done:
                continue
            done.add(k)
            wh = where(f, node)
            at = ast.unparse(x.site)[:60].split("\n")[0] if x.site is not None else "a file operation"
            kk = "%s:%s" % (key, at)
            if any(a == UNK or isinstance(a, tuple) for a in v):
                ctx.unk(kk, wh, "result after %s failed" % at)
            elif same and same == set(v):
                ctx.bad(kk, wh, "after %s failed the routine ends with %s, as it does on success" % (at, ", ".join(sorted(map(str, same)))))
            elif same:
                ctx.unk(kk, wh, "result after %s failed" % at) if UNK in s.ok and DATA in same else \
                    ctx.bad(kk, wh, "after %s failed the routine may end with %s, as it does on success" % (at, ", ".join(sorted(map(str, same)))))
            else:
                ctx.hold(kk, wh, "after %s failed the routine ends with %s" % (at, ", ".join(sorted(map(str, v)))))
        for t, x, node in s.excs:
            if x.failed:
                ctx.hold("%s:raises" % key, where(f, node), "failure raises %s" % t)
        if f.mod.name.split(".")[-1] == "track":
            for e, x in s.after:
                ctx.bad("%s:continues" % key, where(f, e), "goes on with %s after %s failed" % (ast.unparse(e)[:60], ast.unparse(x.site)[:60] if x.site is not None else "a file operation"))
            if not s.after:
                ctx.hold("%s:stops" % key, where(f), "no further file operation after a failure")
    for q in (("tracking_frame_buf", "read_targets"), ("tracking_frame_buf", "write_targets"), ("tracking_frame_buf", "read_path_frame"), ("tracking_frame_buf", "write_path_frame"),
              ("calibration", "Calibration.from_file"), ("calibration", "Calibration.write"), ("tracking_frame_buf", "Frame.read"), ("tracking_frame_buf", "Frame.write"),
              ("track", "trackcorr_c_loop"), ("track", "trackcorr_c_finish"), ("track", "trackback_c")):
        f = ctx.func(*q)
        if f is not None and f not in fl.io:
            ctx.unk("effects:" + q[1], where(f), "no file operation found")
