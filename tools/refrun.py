"""runs every rule on every edit of refactors.py; usage: refrun.py [-w workers] [-r rules] [index ...]  (development aid)"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from refactors import R
VERIF = os.path.dirname(HERE)
RULES = ["C%02d" % i for i in range(1, 30)]


def tree(k):
    fn, edits = R[k]
    d = tempfile.mkdtemp(prefix="ref")
    shutil.copytree("/repo/openptv_python", d + "/openptv_python", ignore=shutil.ignore_patterns("__pycache__"))
    p = d + "/openptv_python/" + fn
    s = open(p).read()
    for o, w, *n in edits:
        i = -1
        for _ in range(n[0] if n else 1):
            i = s.find(o, i + 1)
        if i < 0:
            shutil.rmtree(d)
            raise SystemExit("%d: text not found: %r" % (k, o[:80]))
        s = s[:i] + w + s[i + len(o):]
    compile(s, fn, "exec")
    open(p, "w").write(s)
    return d


def one(job):
    k, rule = job
    d = tree(k)
    try:
        e = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev", SA_STRICT="1")
        r = subprocess.run(["python3-vt", VERIF + "/sa/check.py", rule], capture_output=True, text=True, env=e)
        last = (r.stdout.strip().splitlines() or ["?"])[-1]
        m = re.search(r"(\d+) violated, (\d+) und", last)
        out = []
        if r.returncode or not m:
            out.append("%d %s rc=%d %s" % (k, rule, r.returncode, last))
            out += ["    " + x[:300] for x in r.stdout.splitlines()[:3]] + ["    " + x for x in r.stderr.strip().splitlines()[-1:]]
        elif int(m.group(2)) > {"C06": 1, "C13": 3, "C29": 1}.get(rule, 0):
            out.append("%d %s und %s" % (k, rule, m.group(2)))
        return "\n".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    w = 8
    rules = RULES
    if "-w" in a:
        i = a.index("-w"); w = int(a[i + 1]); del a[i:i + 2]
    if "-r" in a:
        i = a.index("-r"); rules = a[i + 1].split(","); del a[i:i + 2]
    if a == ["-l"]:
        for k in range(len(R)):
            shutil.rmtree(tree(k))
        print(len(R), "apply")
        sys.exit()
    ks = [int(x) for x in a] or range(len(R))
    with ThreadPoolExecutor(w) as ex:
        for o in ex.map(one, [(k, r) for k in ks for r in rules]):
            if o:
                print(o, flush=True)
    print("done")
