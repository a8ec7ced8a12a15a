"""Makes and verifies the planted bugs in /verif/seeded (development aid, not used by any check).

usage: plant.py [-n] [id ...]    (-n: do not run the test suite)
Each entry of plants.py: p(id, property, file, old, new, needs, breaks, demo source).
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plants import PLANTS  # noqa: E402

PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
export NUMBA_CACHE_DIR="$tmp/cache" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 DEMO_TMP="$tmp"
%s "$d/demo.py"
rc=$?
find "$tmp" -delete
exit $rc
''' % PY


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(p, tests):
    pid, prop, edits, needs, breaks, demo = p
    d = os.path.join(VERIF, "seeded", pid)
    w = "/tmp/plant_" + pid
    shutil.rmtree(w, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", w])
    out = [pid]
    try:
        for fn, old, new in edits:
            f = os.path.join(w, "openptv_python", fn)
            s = open(f).read()
            if s.count(old) != 1:
                return pid, "old text occurs %d times in %s" % (s.count(old), fn)
            # changed lines have to be lines of the original repository
            blame = sh(["git", "blame", "-s", "openptv_python/" + fn], cwd=w).stdout.splitlines()
            open(f, "w").write(s.replace(old, new))
            diff0 = sh(["git", "diff", "-U0", "--", "openptv_python/" + fn], cwd=w).stdout
            for l in diff0.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:]
                    st, n = (a.split(",") + ["1"])[:2]
                    for k in range(int(st), int(st) + int(n)):
                        if not blame[k - 1].startswith("^"):
                            out.append("line %d of %s is not original" % (k, fn))
        os.makedirs(d, exist_ok=True)
        diff = sh(["git", "diff"], cwd=w).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        a = sh(["bash", d + "/demo.sh"], cwd="/repo")
        b = sh(["bash", d + "/demo.sh"], cwd=w)
        out.append("demo clean %d patched %d" % (a.returncode, b.returncode))
        if a.returncode:
            out.append((a.stdout + a.stderr)[-1500:])
        out.append("   patched says: " + (b.stdout + b.stderr).strip()[-160:])
        if tests:
            shutil.copy("/repo/openptv_python/version.py", w + "/openptv_python/version.py")
            env = dict(os.environ, PYTHONPATH=w, NUMBA_CACHE_DIR=w + "/nc")
            t = sh([PY, "-m", "pytest", "-q", "-x", "--deselect", "tests/test_point_positions.py::TestOrientation::test_dumbbell",
                    "-p", "no:cacheprovider", "tests"], cwd=w, env=env)
            out.append("tests: " + t.stdout.strip().splitlines()[-1])
            if t.returncode:
                out.append(t.stdout[-1200:])
        env = dict(os.environ, SA_REPO=w, SA_EVIDENCE=w + "/ev")
        c = sh(["python3-vt", VERIF + "/sa/check.py", prop], env=env)
        out.append("check %s: %d %s" % (prop, c.returncode, "CAUGHT" if "VIOLATION property=%s" % prop in c.stdout else "MISSED"))
        out.append("   " + c.stdout.strip().splitlines()[0][:200] if c.stdout.strip() else c.stderr[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "\n  ".join(out)


def main():
    a = sys.argv[1:]
    tests = "-n" not in a
    ids = [x for x in a if not x.startswith("-")]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda p: one(p, tests), [p for p in PLANTS if not ids or p[0] in ids]):
            print(r, flush=True)


main()
