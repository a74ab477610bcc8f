"""Saves under ptrace with faults at chosen system calls."""
import os, random, struct, subprocess, zipfile, hashlib, shutil
from netfile import entry, words

def build(lib):
    """(parent side) the program that saves under ptrace"""
    import vf
    exe = os.path.join(os.path.dirname(lib), "fault")
    r = subprocess.run(["gcc", "-O1", "-w", "-fopenmp"] + vf.variants()[vf.native()] + ["-I", vf.REPO + "/src", "-I", vf.REPO + "/npy_array", "-o", exe,
                        os.path.join(vf.VERIF, "harness", "fault.c"), lib, "-Wl,-rpath," + os.path.dirname(lib)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise vf.BuildError("fault: " + r.stdout)
    return exe

def whole(path):
    d = dict(there=os.path.exists(path), whole=False, entries=[])
    if d["there"]:
        try:
            with zipfile.ZipFile(path) as z: d["entries"] = [entry(x.filename, z.read(x)) for x in z.infolist()]
            d["whole"] = True
        except Exception: d["entries"] = []
    return d

class SF:
    def __init__(self, exe, emit):
        self.exe, self.emit = exe, emit
        self.calls = []
    def begin(self, target):
        for f in os.listdir("."):
            shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
        os.mkdir("d")
        self.target = os.path.join("d", target)
        for b in ("d/bystander.npz", "d/" + target + ".old", "d/" + target + "~"): open(b, "w").write("not yours")
        self.emit(ev="begin")
    def others(self):
        return all(os.path.exists(b) and open(b).read() == "not yours" for b in ("d/bystander.npz", self.target + ".old", self.target + "~"))
    def save(self, sizes, acts, seed, mode="none", k=0, err=28, cb=0):
        r = random.Random(seed)
        parts = []
        for i in range(len(sizes) - 1):
            for n in (sizes[i + 1], sizes[i] * sizes[i + 1]): parts.append(r.randbytes(4 * n))
        raw = b"".join(parts)
        open("params", "wb").write(raw)
        for f in ("rep", "rep.saved"):
            if os.path.exists(f): os.unlink(f)
        cmd = [self.exe, mode, str(k), str(err), self.target, "params", "rep", str(cb), str(len(acts))] + [str(s) for s in sizes] + acts
        e = dict(ev="save", mode=mode, k=k, err=err, sizes=sizes, acts=acts, p=words(raw), outcome="hang", changes=0, same=False, again=False,
                 after=dict(there=False, whole=False, entries=[]), later=dict(there=False, whole=False, entries=[]), others=True)
        try:
            o = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=30).stdout.split("\n")
        except subprocess.TimeoutExpired:
            self.emit(**e); return
        e["changes"] = sum(x.startswith("at ") for x in o) - 1
        if mode == "none": self.calls = [int(x.split()[2]) for x in o if x.startswith("call ")]
        rep = open("rep").read().split("\n")
        saved = any(x.startswith("saved") for x in o)
        end = [x.split() for x in o if x.startswith("end")]
        if any(x.startswith("killed") for x in o): e["outcome"] = "killed"
        elif saved and end and rep[0].startswith("returned"): e["outcome"] = "returned"
        else: e["outcome"] = "crashed %s" % (" ".join(end[0][2:]) if end else "")
        if e["outcome"] == "returned":
            e.update(same=rep[0] == "returned 1", again="again" in rep and end[0][2:] == ["0", "0"], after=whole("rep.saved"), later=whole(self.target))
        else: e["after"] = whole(self.target)
        e["others"] = self.others()
        self.emit(**e)
    def every(self, net, newnet, old, mode, err, cb, only=None):
        """one save per system call of it, with that call struck"""
        self.save(*newnet, cb=cb) if False else None
        # how many calls there are, with and without an old file
        self.begin("n.npz")
        if old: self.save(*net)
        self.save(*newnet, cb=cb)
        n, calls = len(self.calls), list(self.calls)
        for k in range(1, n + 2):
            if mode in ("killafter", "short") and (k > n or calls[k - 1] not in (1, 18)): continue     # (writes)
            if mode == "errfrom" and k > 1 and k <= n and calls[k - 1] in calls[:k - 2] and calls[k - 1] != 1: continue
            self.begin("n.npz")
            if old: self.save(*net)
            self.save(*newnet, mode=mode, k=k, err=err, cb=cb)
    def history(self, steps, target):
        self.begin(target)
        n = 0
        for s in steps:
            kw = dict(s[1])
            if "frac" in kw:        # a place in the save, 0..1
                f = kw.pop("frac"); kw["k"] = max(1, min(len(self.calls), 1 + int(f * len(self.calls))))
            self.save(*s[0], **kw)

def play(nn, arg, emit):
    d = SF(arg["exe"], emit)
    for s in arg["steps"]: getattr(d, s[0])(*s[1], **s[2])
    for f in os.listdir("."):
        shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
