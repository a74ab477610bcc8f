#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a table: tools/mkseed.py TABLE.py [id-substring...] [--noverify]
SEEDS: dict id -> {property, edits: [(file, old, new[, n])], needs, breaks, demo: C source, [files: {name: text}], [pre: shell]}
Each is confirmed in a scratch copy: builds, passes the repository's tests, demo passes without and fails with it."""
import os, shutil, subprocess, sys, tempfile, json, difflib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = [a for a in sys.argv[2:] if not a.startswith("-")]
verify = "--noverify" not in sys.argv
DEMO = """#!/bin/bash
# Run with cwd /repo, after the build: exit 0 if the property held in this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo-XXXXXXXX)
trap 'rm -rf "$d"' EXIT
flags=""
grep -qw avx512f /proc/cpuinfo && flags="-mavx512f -mfma" || { grep -qw avx2 /proc/cpuinfo && flags="-mavx2 -mfma"; }
for f in "$repo"/src/*.c "$repo"/npy_array/*.c; do
    case "$f" in */src/*) fl="$flags";; *) fl="";; esac
    gcc -std=c99 -O3 -g -w -fopenmp $fl -I "$repo/src" -I "$repo/npy_array" -c "$f" -o "$d/$(basename "$f").o" & 
done
gcc -std=gnu11 -O1 -g -w -fopenmp $flags -I "$repo/src" -I "$repo/npy_array" -c "$here/demo.c" -o "$d/demo.o" || exit 2
wait
gcc -fopenmp -rdynamic "$d"/*.o -o "$d/demo" -lzip -ldl -lm || exit 2
cd "$d"
%s
timeout 120 ./demo
rc=$?
[ $rc = 0 ] && echo "demo: holds" || echo "demo: VIOLATED (rc $rc)"
exit $rc
"""
def patched(root, edits):
    for e in edits:
        f, old, new = e[:3]
        p = root + "/" + f
        s = open(p).read()
        k = e[3] if len(e) > 3 else 0
        assert s.count(old) == 1 or (len(e) > 3 and s.count(old) > k), "%s: pattern %r occurs %d times" % (f, old[:60], s.count(old))
        at = -1
        for _ in range(k + 1): at = s.index(old, at + 1)
        open(p, "w").write(s[:at] + new + s[at + len(old):])
def tests(d, repo):
    for x in os.listdir("/opt/vp"):
        p = "/opt/vp/" + x
        if os.path.isfile(p): open(d + "/" + x, "w").write(open(p).read().replace("/repo", repo).replace("/opt/vp/", d + "/"))
    subprocess.run(["bash", d + "/test.sh", d + "/o.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = json.load(open(d + "/o.json"))
    return base, out
def foreign(edits, diff):
    "removed lines that are not of the original repository"
    bad = []
    for f in {e[0] for e in edits}:
        orig = set(l.strip() for l in subprocess.run(["git", "-C", "/repo", "show", "d50000e:" + f], stdout=subprocess.PIPE, text=True).stdout.split("\n"))
        cur = None
        for l in open(diff):
            if l.startswith("--- "): cur = l[6:].strip()
            elif cur == f and l.startswith("-") and l[1:].strip() not in orig: bad.append(l.strip())
    return bad
for sid, s in ns["SEEDS"].items():
    if sel and not any(x in sid for x in sel): continue
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        out = here + "/seeded/" + sid
        os.makedirs(out, exist_ok=True)
        ign = shutil.ignore_patterns(".git")
        shutil.copytree("/repo", tmp + "/a", symlinks=True, ignore=ign)
        shutil.copytree("/repo", tmp + "/b", symlinks=True, ignore=ign)
        patched(tmp + "/b", s["edits"])
        diff = ""
        for f in sorted({e[0] for e in s["edits"]}):
            r = subprocess.run(["git", "diff", "--no-index", "--src-prefix=a/", "--dst-prefix=b/", "a/" + f, "b/" + f], cwd=tmp, stdout=subprocess.PIPE, text=True)
            diff += r.stdout.replace("a/a/", "a/").replace("b/b/", "b/")
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.c", "w").write(s["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(DEMO % s.get("pre", ""))
        os.chmod(out + "/demo.sh", 0o755)
        for k, v in s.get("files", {}).items(): open(out + "/" + k, "w").write(v.lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        if verify:
            chk = subprocess.run(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r0 = subprocess.run(["bash", out + "/demo.sh"], cwd=tmp + "/a", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=tmp + "/b", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            base, o = tests(tmp, tmp + "/b")
            lost = sorted(set(base["stable"]) - set(o["passed"]))
            blame = foreign(s["edits"], out + "/patch.diff")
            good = chk.returncode == 0 and r0.returncode == 0 and r1.returncode != 0 and not lost and not blame
            print("%-28s %s apply:%d clean:%d patched:%d lost:%s own-lines:%s%s" % (sid, "OK " if good else "BAD", chk.returncode, r0.returncode, r1.returncode, lost[:3], blame, "" if good else "\n" + chk.stdout + r0.stdout[-800:] + "\n--\n" + r1.stdout[-800:]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
