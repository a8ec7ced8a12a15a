"""usage: check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)

from sa import pit  # noqa: E402
from sa.model import Package  # noqa: E402
from sa.rulekit import Ctx, report  # noqa: E402

LIMIT = 780  # seconds after which the obligations decided so far are reported


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("sa.rules." + pid.lower())
    ctx = Ctx(pid, Package(), tier)
    if tier == "thorough":
        pit.SCALE = 4

    def work():
        try:
            mod.check(ctx)
        except Exception:
            # the analysis gives up here: what it decided before stands, the rest is undecided
            tb = traceback.format_exc()
            sys.stderr.write(tb)
            ctx.unk("internal", "sa", "analysis stopped: " + tb.strip().splitlines()[-1])
            if os.environ.get("SA_STRICT"):
                os._exit(3)
    threading.stack_size(900 * 1024 * 1024)
    th = threading.Thread(target=work, daemon=True)
    th.start()
    th.join(LIMIT)
    if th.is_alive():
        ctx.unk("time", "sa", "analysis not finished in %d s" % LIMIT)
        ctx.obl = list(ctx.obl)
    rc = report(ctx, mod, seed, t0)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
