"""C25: nothing leaks over any create/use/free lifecycle."""
import ctypes as C, os, random, struct, zipfile, vf, npy
from nets import *

OPS = "create init loss use save load nfree createbad opt epoch ofree cb cbrun cbfree aload ammap asave afree lload ladd lsave lfree name eval anew dump".split()
BUILTIN = ["tanh", "relu", "sigmoid", "linear", "softmax", "softplus", "softsign", "hard_sigmoid", "exponential"]

# ------------------------------------------------------------------ files
def f4(shape, seed=1, fortran=False):
    r = random.Random(seed); n = 1
    for d in shape: n *= d
    return npy.header(dict(type="f", elem=4, endian="<", fortran=fortran, shape=shape)) + struct.pack("<%df" % n, *[r.uniform(-1, 1) for _ in range(n)])
def strings(rows, elem=15):
    return npy.header(dict(type="S", elem=elem, endian="|", fortran=False, shape=[len(rows)])) + b"".join(x.encode().ljust(elem, b"\0") for x in rows)
def zipped(fn, entries, method=0):
    with zipfile.ZipFile(fn, "w", method) as z:
        for i, e in enumerate(entries): z.writestr("arr_%d.npy" % i, e)
def padded(body):          # a proper header: data from a multiple of 64
    n = 10 + body[8] + 256 * body[9]; h, d = body[10:n - 1], body[n:]
    pad = -(10 + len(h) + 1) % 64
    h = h + b" " * pad + b"\n"
    return body[:8] + struct.pack("<H", len(h)) + h + d
def files(d):
    os.makedirs(d + "/adir", exist_ok=True)
    w = lambda fn, b: open(d + "/" + fn, "wb").write(b)
    acts = strings(["tanh", "sigmoid"])
    good = [f4([3, 4]), f4([4]), f4([4, 2]), f4([2]), acts]
    nets = dict(good=good, one=[f4([2, 2]), f4([2]), strings(["relu"])], unknown=[f4([3, 4]), f4([4]), f4([4, 2]), f4([2]), strings(["tanh", "nosuch"])],
                shapes=[f4([3, 4]), f4([5]), f4([4, 2]), f4([2]), acts], dtype=[f4([3, 4]), npy.header(dict(type="f", elem=8, endian="<", fortran=False, shape=[4])) + bytes(32), f4([4, 2]), f4([2]), acts],
                noact=good[:4], actshort=good[:4] + [strings(["tanh"])], odd=good[:4] + [f4([2, 2]), acts], empty=[], fortran=[f4([3, 4], fortran=True)] + good[1:],
                chain=[f4([3, 4]), f4([4]), f4([5, 2]), f4([2]), acts])
    for k, v in nets.items(): zipped(d + "/net_%s.npz" % k, v, 8 if k in ("one", "chain") else 0)
    raw = open(d + "/net_good.npz", "rb").read(); w("net_cut.npz", raw[:len(raw) * 2 // 3])
    raw = open(d + "/net_one.npz", "rb").read()
    arrs = dict(two=padded(f4([3, 5])), zero=padded(f4([0, 3])), scalar=padded(f4([])), fort=padded(f4([4, 4], fortran=True)), trail=padded(f4([3, 5])) + bytes(3 * 4096 + 17), big=padded(f4([600, 700])),
                page=padded(f4([1008])), eight=padded(f4([1, 2, 1, 2, 1, 2, 1, 3])), cut=padded(f4([30, 50]))[:-1], head=padded(f4([3, 5]))[:70], magic=b"\x93NUMPZ" + padded(f4([3]))[6:],
                dict=npy.header(dict(type="f", elem=4, endian="<", fortran=False, shape=[2]), text="{'descr': '<f4', 'shape': 3x, }") + bytes(8), none=b"")
    for k, v in arrs.items(): w("arr_%s.npy" % k, v)
    zipped(d + "/lst_few.npz", [f4([2, 3]), f4([]), f4([0]), strings(["a", "bc"])])
    zipped(d + "/lst_deflated.npz", [f4([20, 30])] * 5, 8)
    zipped(d + "/lst_partly.npz", [f4([2, 3]), b"not an array", f4([3])[:-1], f4([2])])
    zipped(d + "/lst_nothing.npz", [b"not an array", f4([3])[:-1]])
    raw = open(d + "/lst_few.npz", "rb").read(); w("lst_cut.npz", raw[:-30])
    for k in ("net_text.npz", "arr_text.npy", "lst_text.npz"): w(k, b"nothing of the kind\n" * 300)
def path(d, op, f):
    if op in ("save", "asave", "lsave"): return dict(ok="out.npz", nodir="nodir/out.npz", isdir=d + "/adir")[f]
    kind, ext = dict(load=("net", "npz"), lload=("lst", "npz")).get(op, ("arr", "npy"))
    return d + "/adir" if f == "dir" else "%s/%s_%s.%s" % (d, kind, f, ext)

# ------------------------------------------------------------------ playing (child)
class OP(C.Structure):
    _fields_ = [("op", C.c_int), ("s", C.c_int), ("a", C.c_int), ("b", C.c_int)]

def scen(nn, arg, emit):
    null = os.open("/dev/null", os.O_WRONLY); os.dup2(null, 2); os.dup2(null, 1)
    L = nn.L; d = arg["files"]
    L.sh_omp_threads(arg["threads"])
    acts = (C.c_char_p * len(arg["acts"]))(*[a.encode() for a in arg["acts"]])
    for hist in arg["hists"]:
        for f in os.listdir("."): os.unlink(f)
        paths, ops = [], []
        for o in hist:
            a, b = o["a"], o.get("b", 0)
            if o["f"]: a = len(paths); paths.append(path(d, o["op"], o["f"]))
            if o["op"] == "cb" and a:
                if len(paths) % 2 != b % 2: paths.append("")
                b = len(paths); paths.append(o["file"])
            ops.append((OPS.index(o["op"]) + 1, o["s"], a, b))
        ok = C.create_string_buffer(len(ops) + 1); g = (C.c_long * 3)()
        L.sh_life((OP * len(ops))(*ops), len(ops), (C.c_char_p * (len(paths) + 1))(*[p.encode() for p in paths]), acts, len(acts), 3, arg["rounds"], 5, ok, g)
        emit(ev="life", ops=[dict(op=o["op"], s=o["s"], f=o["f"], a=o["a"]) for o in hist], ok=[c == 49 for c in ok.raw[:len(ops)]], growth=[min(x, 1 << 30) for x in g], detail=[o.get("b", 0) for o in hist])

# ------------------------------------------------------------------ histories (parent)
NETF = "good one unknown cut text missing dir shapes dtype noact actshort odd empty fortran chain".split()
ARRF = "two zero scalar fort trail page big eight cut head text missing dir magic dict none".split()
LSTF = "few deflated partly nothing cut text missing".split()
def concrete(r, o):
    """the details a behaviour leaves open"""
    o = dict(o); k = o["op"]
    if k == "create": o.update(a=r.randrange(6), b=r.randrange(18))
    elif k == "createbad": o.update(a=r.randrange(8), b=r.randrange(18))
    elif k == "load": o["f"] = r.choice(["good", "one", "unknown"]) if o["f"] == "good" else r.choice(NETF[3:])
    elif k == "aload" or k == "ammap": o["f"] = r.choice(ARRF[:8]) if o["f"] in ("two", "trail") else r.choice(ARRF[8:])
    elif k == "lload": o["f"] = r.choice(LSTF[:3]) if o["f"] == "few" else r.choice(LSTF[3:])
    elif k in ("save", "asave", "lsave"): o["f"] = "ok" if o["f"] == "ok" else r.choice(["nodir", "isdir"]); o["b"] = r.randrange(2)
    elif k == "init": o["a"] = r.randrange(2)
    elif k == "loss": o["a"] = r.randrange(3) if o["a"] != 3 else 3
    elif k == "use": o["a"] = r.choice([0, 1, 2, 7, 64])
    elif k == "eval": o["a"] = r.choice([1, 5, 200])
    elif k == "opt": o["b"] = r.randrange(16)
    elif k == "epoch": o.update(a=r.choice([1, 2, 5, 33, 300]), b=r.choice([0, 0, 3, 50]))
    elif k == "cb": o.update(a=r.randrange(3), b=r.randrange(2), file=r.choice(["m.npz", "m.npz", "nodir/m.npz"])); o["file"] = o["file"].replace("m.npz", "l.log") if o["a"] == 2 else o["file"]
    elif k == "cbrun": o["b"] = r.randrange(8)
    elif k == "ladd": o["b"] = r.randrange(2)
    elif k == "name": o["a"] = r.randrange(18)
    return o
def long(r, n):
    """a random history over several objects of every kind, closed at the end"""
    net, opt, cb, arr, lst = {}, {}, {}, {}, {}
    out = []
    def do(op, s, f="", a=0): out.append(concrete(r, dict(op=op, s=s, f=f, a=a)))
    for _ in range(n):
        s = r.randrange(1, 4); k = r.choice("create load loss loss init use save opt opt epoch cb cbrun nfree ofree cbfree aload ammap anew asave dump afree ladd lload lsave lfree name eval createbad".split())
        if k in ("create", "load") and s not in net:
            if k == "create": do(k, s); net[s] = "net"
            else:
                bad = r.random() < 0.6; do(k, s, "cut" if bad else "good")
                if not bad: net[s] = "net"
        elif k == "loss" and s in net:
            if r.random() < 0.1 and s not in opt.values(): do(k, s, a=3); net[s] = "net"
            else: do(k, s); net[s] = "lossy"
        elif k in ("init", "use", "eval") and s in net: do(k, s)
        elif k == "save" and s in net: do(k, s, r.choice(["ok", "ok", "nodir", "isdir"]))
        elif k == "opt" and s not in opt:
            c = [i for i in net if net[i] == "lossy"]
            if c: opt[s] = r.choice(c); do(k, s, a=opt[s])
        elif k == "epoch" and s in opt: do(k, s)
        elif k == "cb" and s not in cb: do(k, s); cb[s] = 1
        elif k == "cbrun" and s in cb and opt: do(k, s, a=r.choice(list(opt)))
        elif k == "nfree" and s in net and s not in opt.values(): do(k, s); del net[s]
        elif k == "ofree" and s in opt: do(k, s); del opt[s]
        elif k == "cbfree" and s in cb: do(k, s); del cb[s]
        elif k in ("aload", "ammap", "anew") and s not in arr:
            bad = k != "anew" and r.random() < 0.5; do(k, s, "" if k == "anew" else "cut" if bad else "two")
            if not bad: arr[s] = 1
        elif k == "asave" and s in arr: do(k, s, r.choice(["ok", "nodir", "isdir"]))
        elif k == "dump" and s in arr: do(k, s)
        elif k == "afree" and s in arr: do(k, s); del arr[s]
        elif k == "ladd" and arr: a = r.choice(list(arr)); do(k, s, a=a); del arr[a]; lst[s] = 1
        elif k == "lload" and s not in lst:
            bad = r.random() < 0.5; do(k, s, "cut" if bad else "few")
            if not bad: lst[s] = 1
        elif k == "lsave" and s in lst: do(k, s, r.choice(["ok", "ok", "nodir", "isdir"]))
        elif k == "lfree" and s in lst: do(k, s); del lst[s]
        elif k in ("name", "createbad"): do(k, s)
    end = [("ofree", s) for s in opt] + [("cbfree", s) for s in cb] + [("afree", s) for s in arr] + [("lfree", s) for s in lst]
    r.shuffle(end)
    for k, s in end + [("nfree", s) for s in net]: do(k, s)
    return out

def run(rep):
    r = random.Random(vf.SEED + 25)
    T = vf.THOROUGH
    cfg = open(vf.VERIF + "/spec/ResMC.cfg").read()
    def beh(fam, n, name): return vf.behaviours(rep, "ResMC", cfg.replace('"net"', '"%s"' % fam).replace("= 5", "= %d" % n), name, workers=1, heap="4g")
    nets = beh("net", 6 if T else 5, "balanced histories of a network")
    opts = beh("opt", 9 if T else 8, "balanced histories of training")
    arrs = beh("arr", 5, "balanced histories of arrays and lists")
    if vf.tlc("ResMC", cfg.replace("LEAKY = FALSE", "LEAKY = TRUE"), workers=1).ok: raise vf.TLCError("the control does not fail")
    if not T: arrs = [b for b in arrs if len(b) <= 4] + r.sample(arrs, 2500); opts = r.sample(opts, 900); nets = r.sample(nets, 1200)
    hists = [[concrete(r, o) for o in b] for b in nets + opts + arrs]
    # every file of every kind, every call that fails
    O = lambda op, f="", a=0, s=1, **k: dict(op=op, s=s, f=f, a=a, **k)
    for f in NETF: hists.append([O("load", f), O("nfree")])
    for f in ARRF: hists += [[O("aload", f), O("afree")], [O("ammap", f), O("afree")]]
    for f in ARRF[:8]:
        for how in ("aload", "ammap"):
            for t in ("ok", "nodir", "isdir"): hists += [[O(how, f), O("asave", t), O("afree")], [O(how, f), O("ladd", a=1), O("lsave", t, b=0), O("lfree")], [O(how, f), O("ladd", a=1), O("lsave", t, b=1), O("lfree")]]
    for f in LSTF: hists.append([O("lload", f), O("lfree")])
    for k in range(8): hists.append([O("createbad", a=k, b=k)])
    for k in range(18): hists += [[O("name", a=k)], [O("create", a=0, b=k), O("save", "ok"), O("nfree")]]
    for k in range(16):
        for n1, n2 in ((300, 5), (5, 300), (1, 2), (64, 64)):
            hists.append([O("create", a=k % 6, b=0), O("loss", a=k % 3), O("opt", a=1, b=k), O("epoch", a=n1, b=0), O("epoch", a=n2, b=3), O("epoch", a=n1, b=0), O("ofree"), O("nfree")])
    for k in (0, 1, 2):
        for f in ("m.npz", "nodir/m.npz"):
            for b in (0, 1):
                hists.append([O("create", a=0, b=0), O("loss", a=0), O("opt", a=1, b=0), O("cb", a=k, b=b, file=f)] + [O("cbrun", a=1, b=x) for x in (7, 5, 5, 3, 6, 1)] + [O("cbfree"), O("ofree"), O("nfree")])
    hists += [long(r, r.choice([8, 15, 30, 60])) for _ in range(6000 if T else 350)]
    hists = [h for h in hists if h]
    r.shuffle(hists)
    d = vf.sub("files-c25"); files(d)
    so = vf.cc_shared("acts.c", "lib25.so", ["-DMANY"])
    open(d + "/text.so", "w").write("no library\n" * 400)
    acts = BUILTIN + [s + "@" + so for s in ("half", "relu", "f7")] + ["nosuch", "", "nosuch@" + so, "half@" + d + "/missing.so", "half@" + d + "/text.so", "@" + so]
    lib = vf.build()
    n = 32 if T else 24
    jobs = [dict(name="lives-%d" % k, mod="c25", func="scen", lib=lib, arg=dict(hists=hists[k::n], files=d, acts=acts, threads=1 + k % 4, rounds=4), key="c25") for k in range(n)]
    vf.conform(rep, "ResTrace", jobs)
    rep.cov["histories"] = sum(len(j["arg"]["hists"]) for j in jobs)
    rep.cov["rounds_per_history"] = 7
