"""C28: a run is determined by its calls, its data and its seed."""
import ctypes as C, hashlib, json, os, random, re, struct, zipfile, vf
from train import *
from netfile import entry

class Session:
    """the objects of one session; what is seen of it is kept"""
    def __init__(self, nn, base, shift=0):
        self.nn, self.base, self.got = nn, base, []
        self.t = TD(nn, lambda **e: self.got.append(e))
        self.cbs, self.shift, self.dir = [], shift, "s%d" % base
        os.makedirs(self.dir, exist_ok=True)
        self.libc = C.CDLL(None)
    def call(self, op, a, k):
        self.got = []
        try: getattr(self, op)(*a, **k)
        except Diverged: self.got.append("diverged")
        return self.got
    # everything a session may do
    def create(self, sizes, acts, loss, p, xs, ys, kind, kind2, bs, hp, hp2, metrics):
        t = self.t; t.net(1, sizes, acts, loss, p)
        t.data(1, xs, ys); t.data(2, xs[:3], ys[:3])
        t.opt(1, 1, kind, bs, False, metrics, True, **hp); t.opt(2, 1, kind2, bs, True, metrics, True, **hp2)
    def init(self, given=None):
        n = self.nn; h = self.t.h[1]; k = len(n.shape(h)) - 1
        n.L.neuralnet_initialize(h, None if given is None else (C.c_char_p * (k + 1))(*[g.encode() for g in given], None))
        self.got.append(n.params_hex(h))
    def train(self, valid=0): r = self.t.epoch(1, 1, valid); self.after(1, r, valid)
    def shuffled(self, valid=0): r = self.t.epoch(2, 1, valid); self.after(2, r, valid)
    def predict(self, x):
        n = self.nn; h = self.t.h[1]
        b = n.buf(len(x), x); o = n.abuf(n.shape(h)[-1]); n.L.neuralnet_predict(h, b, o); self.got.append(o.hex()); b.free(); o.free()
        self.t.evaluate(1, 1, ["mean_squared_error", "mean_absolute_error"])
    def batch(self):
        n = self.nn; h = self.t.h[1]; bx, by, k = self.t.d[1][:3]; o = n.buf(k * n.shape(h)[-1])
        n.L.neuralnet_predict_batch(h, k, bx, o); self.got.append(o.hex()); o.free()
    def setp(self, p): self.t.setp(1, p)
    def loss(self, name): self.t.loss(1, name)
    def file(self, f):
        if not os.path.exists(f): return "none"
        d = open(f, "rb").read()
        if not d.startswith(b"PK"): return [re.sub(r"^\[..:..:..\]", "", x) for x in d.decode("latin1").split("\n")]
        with zipfile.ZipFile(f) as z: return [[x.filename, x.compress_type, z.read(x).hex()] for x in z.infolist()]
    def save(self):
        f = self.dir + "/n.npz"
        if os.path.exists(f): os.unlink(f)
        self.nn.L.sh_save(self.t.h[1], f.encode()); self.got.append(self.file(f))
    def reload(self):
        """goes on with the network it saved before"""
        f = self.dir + "/n.npz"
        if not os.path.exists(f): return
        h = self.nn.load(f); self.got.append(self.nn.params_hex(h)); self.nn.free(h)
    def callbacks(self, patience, greater):
        L = self.nn.L
        if self.cbs: return
        keep = [C.create_string_buffer(("%s/%s" % (self.dir, x)).encode()) for x in ("best.npz", "log.txt")]
        self.cbs = [("es", C.c_void_p(L.sh_es(patience, 0, int(greater))), None), ("mc", C.c_void_p(L.sh_mcp(keep[0], 0, int(greater), 0)), keep[0]), ("log", C.c_void_p(L.sh_logger(keep[1], 0, 1)), keep[1])]
    def after(self, o, r, valid):
        L = self.nn.L
        b = self.nn.buf(len(r), r)
        for kind, c, f in self.cbs:
            L.sh_cb_run(c, self.t.o[o]["o"], b, int(bool(valid)))
            self.got.append(bool(L.sh_es_stop(c)) if kind == "es" else 0)
            if f: self.libc.fflush(None); self.got.append(self.file(f.value.decode()))
        b.free()
    def free(self):
        for k, c, f in self.cbs: self.nn.L.sh_cb_free(c)
        self.cbs = []
        self.t.reset()

def world(nn, case, k, emit):
    """one run of the session; k = 0: nothing else happens"""
    r = random.Random(case["salt"] * 7 + k)
    L, libc = nn.L, C.CDLL(None)
    os.makedirs("w%d" % k); os.chdir("w%d" % k)
    junk = []
    other, own = None, None
    if k:
        libc.mallopt(-6, r.choice([0, 1, 85, 128, 255]))                          # what fresh memory holds
        libc.malloc.restype = C.c_void_p
        for _ in range(r.choice([0, 3, 50])): junk.append(C.c_void_p(libc.malloc(C.c_size_t(r.choice([8, 24, 100, 1000, 5000, 200000])))))
        r.shuffle(junk)
        for p in junk[: len(junk) // 2]: libc.free(p)
    C.CDLL(case["clock"]).clock_hold(1700000000)                                # (an optimizer's first epoch takes its seed from the clock)
    L.sh_omp_threads(1)
    other = None
    def noise(op):
        nonlocal other
        c = case["other"]
        if op == "free":
            if other: other.free()
            other = None; return
        if other is None or op == "create":
            if other: other.free()
            other = Session(nn, 1000 + k); other.call("create", *c["create"])
        if op != "create": other.call(op, *c.get(op, [[], {}]))
    if k and r.random() < 0.5: L.sh_srand(r.randrange(1000))
    if k == 2:                                                                     # a long life before, in many threads
        L.sh_omp_threads(4)
        for op in ("create", "init", "train", "shuffled", "callbacks", "train", "save", "batch", "predict", "free"): noise(op)
        L.sh_omp_threads(1)
    emit(ev="begin", fresh=k == 0)
    for who, op, a, kw in case["steps"]:
        if who == "before" or who == "noise":
            if k: noise(op)
            continue
        if op == "seed":
            L.sh_srand(case["seed"]); own = Session(nn, 1); got = []
        else:
            if k: L.sh_scribble(r.choice([-1, 65, 255, 1]), 100000)               # nor what the stack holds
            got = own.call(op, a, kw)
        emit(ev="step", call=hashlib.md5(json.dumps([op, a, kw]).encode()).hexdigest()[:12], what=op, seen=hashlib.md5(json.dumps(got).encode()).hexdigest())
        if "diverged" in got: break

def scen(nn, arg, emit):
    for i, c in enumerate(arg):
        for k in range(3):
            pid = os.fork()
            if pid == 0:
                d = "c%d-%d" % (i, k); os.makedirs(d); os.chdir(d)
                code = 3
                try: world(nn, c, k, emit); code = 0
                except BaseException:
                    import traceback; traceback.print_exc(); import sys; sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
            st = os.waitpid(pid, 0)[1]
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3: raise RuntimeError("driver error")
            if st: emit(ev="crash", how="status %d" % st)

# ---------------------------------------------------------------- parent side
def creation(r, calm=False):
    s, sizes, loss = rnd_net(r, 1, r.choice([[3, 2], [2, 3, 2], [4, 1], [1, 1], [5, 4], [3, 9, 2], [2, 17, 3], [6, 3], [1, 33, 1]]), loss=r.choice(["mean_squared_error", "mean_absolute_error", "binary_crossentropy", "categorical_crossentropy"]))
    xs, ys = rnd_data(r, r.choice([3, 4, 5, 8, 13]), sizes[0], sizes[-1], loss)
    ks = [r.choice(["sgd", "adagrad", "rmsprop", "adam"]) for _ in range(2)]
    hp = [dict(rnd_hp(r, k), lr=r.choice([0.001, 0.01, 0.05])) for k in ks]
    return sizes, [[sizes, s[1][2], loss, s[1][4], xs, ys, ks[0], ks[1], r.choice([1, 2, 3, 8]), hp[0], hp[1], [r.choice(METRICS[:3]) for _ in range(r.choice([0, 1, 2]))]], {}]

def case(r, clock, hist):
    sizes, cr = creation(r)
    _, oc = creation(r)
    steps = []
    def args(op):
        return {"create": cr, "predict": [[rnd_vec(r, sizes[0])], {}], "train": [[r.choice([0, 2])], {}], "shuffled": [[r.choice([0, 2])], {}], "setp": [[rnd_params(r, sizes)], {}],
                "loss": [[r.choice(LOSSES[:2])], {}], "callbacks": [[r.choice([0, 1, 3]), r.random() < 0.3], {}],
                "init": [[r.choice([None, [r.choice(["xavier", "kaiming"]) for _ in sizes[1:]]])], {}]}.get(op, [[], {}])
    for who, op in hist:
        a, k = args(op or "seed") if who in ("mine",) else ([], {})
        steps.append([who, op or "seed", a, k])
    other = dict(create=oc, predict=[[rnd_vec(r, oc[0][0][0])], {}], callbacks=[[2, False], {}])
    return dict(steps=steps, other=other, seed=r.randrange(1 << 30), salt=r.randrange(1 << 30), clock=clock)

def run(rep):
    r = random.Random(vf.SEED + 28)
    T = vf.THOROUGH
    beh = vf.behaviours(rep, "RunMC", "RunMCt.cfg" if T else "RunMC.cfg", "the same session alone and among others", workers=1)
    if vf.tlc("RunMC", open(vf.VERIF + "/spec/RunMC.cfg").read().replace("LEAKY = FALSE", "LEAKY = TRUE").replace("PrintIt", ""), workers=4).ok: raise vf.TLCError("the control does not fail")
    clock = vf.cc_shared("clock.c", "libclock.so")
    hs = [b["hist"] for b in (r.sample(beh, min(len(beh), 4000 if T else 260)))]
    for _ in range(800 if T else 90):                          # longer ones, with everything
        b = [["before", r.choice(["train", "train", "init", "shuffled", "save"])] for _ in range(r.choice([0, 1, 3]))]
        quiet = ["create", "predict", "free", "save", "batch", "callbacks"] if ["before", "train"] not in b else ["train", "train", "predict", "save", "batch", "callbacks"]
        h = b + [["seed", ""], ["mine", "create"]]
        for _ in range(r.choice([3, 5, 8, 12])):
            h.append(["mine", r.choice(["init", "train", "train", "train", "shuffled", "predict", "batch", "save", "reload", "setp", "loss", "callbacks"])])
            if r.random() < 0.4: h.append(["noise", r.choice(quiet)])
        hs.append(h)
    cs = [case(r, clock, h) for h in hs]
    r.shuffle(cs)
    rep.cov["behaviours_replayed"] = len(cs)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        mine = cs if vi == 0 or T else cs[vi::8]
        k = 16 if vi == 0 else 2
        jobs += [dict(name="%s-%d" % (v, i), mod="c28", func="scen", lib=lib, arg=mine[i::k], key="c28", env={"LD_PRELOAD": clock, "OMP_NUM_THREADS": "4"}) for i in range(k)]
    vf.conform(rep, "RunTrace", jobs, retries=3)
