#!/usr/bin/env python3
"""Runs checks against mutants of /repo, each in a scratch copy.
   tools/mutate.py TABLE.py [-t] [name-substring...]
TABLE defines MUTANTS: (name, [check ids], file, old, new[, n-th occurrence]) or with a list of (file, old, new) as third field.
-t: also run the repository's own tests against the mutant."""
import os, shutil, subprocess, sys, tempfile, json, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
args = sys.argv[2:]
tests = "-t" in args
sel = [a for a in args if not a.startswith("-")]
jobs = 1
for a in list(args):
    if a.startswith("-j"): jobs = int(a[2:])
def one(m):
    name, checks = m[0], m[1]
    edits = m[2] if isinstance(m[2], list) else [m[2:]]
    if sel and not any(s in name or s in checks for s in sel): return
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        repo = d + "/repo"
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git") if not tests else None)
        bad = False
        for e in edits:
            f, old, new = e[:3]
            s = open(repo + "/" + f).read()
            if s.count(old) < 1 or (len(e) < 4 and s.count(old) != 1): print("%-40s PATTERN occurs %d times" % (name, s.count(old))); bad = True; break
            k = e[3] if len(e) > 3 else 0
            at = -1
            for _ in range(k + 1): at = s.index(old, at + 1)
            open(repo + "/" + f, "w").write(s[:at] + new + s[at + len(old):])
        if bad: return
        res = []
        if tests:
            for x in ("build.sh", "test.sh", "runtests.py", "results.py", "seeded.py", "fixed_time.c"):
                if os.path.exists("/opt/vp/" + x):
                    open(d + "/" + x, "w").write(open("/opt/vp/" + x).read().replace("/repo", repo).replace("/opt/vp/", d + "/"))
            p = subprocess.run(["bash", d + "/test.sh", d + "/o.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            try:
                o = json.load(open(d + "/o.json")); n = json.dumps(o).count('"fail'); res.append("tests:%s" % json.dumps(o)[:0] + str({k: len(v) for k, v in o.items() if isinstance(v, (list, dict))}))
            except Exception as x: res.append("tests:%s" % x)
        for c in checks:
            t = time.time()
            try:
                p = subprocess.run([here + "/check", c], env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                v = "CAUGHT" if p.returncode == 1 and "VIOLATION property=%s" % c in p.stdout else "MISSED" if p.returncode == 0 else "ERROR rc=%d %s" % (p.returncode, p.stdout[-600:])
                open("/tmp/mut-last-%s.log" % c, "w").write(p.stdout)
            except subprocess.TimeoutExpired: v = "TIMEOUT"
            res.append("%s:%s(%ds)" % (c, v, time.time() - t))
        print("%-40s %s" % (name, " ".join(res)), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)

from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, ns["MUTANTS"]))
