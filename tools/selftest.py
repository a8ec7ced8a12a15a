"""Self test of the rules on textual variants of the package (development aid, not a check).

usage: selftest.py [property ...]
Each case of mutants.py: (property, file, old, new, expect); expect 1: the check
has to report a violation, 0: the variant keeps the behaviour and the check has to stay quiet.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from mutants import CASES  # noqa: E402


def one(n, c):
    pid, fn, old, new, expect = c[:5]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/openptv_python", d + "/openptv_python", ignore=shutil.ignore_patterns("__pycache__"))
        p = os.path.join(d, "openptv_python", fn)
        s = open(p).read()
        for o_, n_, *k in (old if isinstance(old, list) else [(old, new)]):
            i = -1
            for _ in range(k[0] if k else 1):
                i = s.find(o_, i + 1)
                if i < 0:
                    return n, c, "NOT APPLICABLE", repr(o_)
            s = s[:i] + n_ + s[i + len(o_):]
        open(p, "w").write(s)
        env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev", SA_STRICT="1")
        r = subprocess.run(["python3-vt", VERIF + "/sa/check.py", pid], capture_output=True, text=True, env=env, timeout=900)
        got = r.returncode
        return n, c, "ok" if got == expect else "WRONG (%d)" % got, (r.stdout + r.stderr)[-400:]
    finally:
        shutil.rmtree(d)


def main():
    ids = sys.argv[1:]
    cs = [(i, c) for i, c in enumerate(CASES) if not ids or c[0] in ids or str(i) in ids]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for n, c, res, out in ex.map(lambda x: one(*x), cs):
            if res != "ok":
                bad += 1
                print("%d %s %s expect %d: %s\n   %r -> %r\n%s" % (n, c[0], c[1], c[4], res, str(c[2])[:80], str(c[3])[:80], out if "-v" in ids or "WRONG" in res else ""))
    print("%d cases, %d wrong" % (len(cs), bad))


main()
