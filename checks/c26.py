"""C26: activation names resolve consistently, including dynamically loaded ones."""
import ctypes as C, json, os, random, vf
from train import S
from nets import *

LONG = "negate_all_of_the_outputs_of_the_layer_in_one_single_call"
HAS = {"cube", "half", "relu", LONG}

class Reg(ND):
    """lookups; names are [sym, lib] pairs, paths: how each library is written"""
    def __init__(self, nn, emit, paths):
        super().__init__(nn, emit)
        self.paths = {k: os.path.relpath(v) if k == "arel" else v for k, v in paths.items()}
        self.ids = {}
    def text(self, n): return n["sym"] + ("@" + self.paths[n["lib"]] if n["lib"] else "")
    def untext(self, t):
        sym, at, path = t.partition("@")
        if not at: return dict(sym=sym, lib="")
        return dict(sym=sym, lib={v: k for k, v in self.paths.items()}.get(path, "missing"))
    def ptr(self, p): return self.ids.setdefault(p, len(self.ids) + 1) if p else 0
    def lookup(self, name, x, g):
        n = self.nn; L = n.L
        buf = C.create_string_buffer(self.text(name).encode())
        f = L.get_activation_func(buf)
        buf.raw = b"~" * len(buf.raw)                   # the name belongs to the caller
        ev = dict(ev="lookup", name=name, p=self.ptr(f), back=dict(sym="", lib=""), bp=0, x=[], y=[], g=[], r=[], d=False, guard=0)
        if f:
            back = L.get_activation_name(C.c_void_p(f)).decode("latin1")
            ev.update(back=self.untext(back), bp=self.ptr(L.get_activation_func(back.encode("latin1"))))
            b = n.buf(len(x), x); L.sh_call_act(C.c_void_p(f), len(x), b)
            d = L.get_activation_derivative(C.c_void_p(f))
            ev.update(x=fls(x), y=fls(b.get()), d=bool(d))
            if d:
                bg = n.buf(len(x), g); L.sh_call_der(C.c_void_p(d), len(x), b, bg)
                ev.update(g=fls(g), r=fls(bg.get())); ev["guard"] += bg.damage(); bg.free()
            ev["guard"] += b.damage(); b.free()
        self.emit(**ev)
    def make(self, id, sizes, names):
        h = self.nn.create(sizes, [self.text(n) for n in names])
        self.emit(ev="make", id=id, sizes=sizes, acts=names, ok=bool(h), shape=self.nn.shape(h) if h else [], names=[self.untext(a) for a in self.nn.acts(h)] if h else [])
        if h: self.h[id] = h

def scen(nn, arg, emit):
    """every sequence in a process of its own, in which nothing has been looked up before"""
    null = os.open("/dev/null", os.O_WRONLY); os.dup2(null, 2)
    for steps in arg["seqs"]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r); out = []
            d = Reg(nn, lambda **k: out.append(k), arg["paths"])
            f = os.fdopen(w, "w")
            for s in steps:
                getattr(d, s[0])(*s[1], **s[2])
                for o in out: f.write(json.dumps(o) + "\n")
                del out[:]
                f.flush()
            f.write('{"ev": "done"}\n'); f.close(); C.CDLL(None).exit(0)          # with its exit handlers
        os.close(w)
        emit(ev="fork")
        rows = [json.loads(x) for x in os.fdopen(r).read().splitlines() if x.endswith("}")]
        _, st = os.waitpid(pid, 0)
        for o in rows:
            if o["ev"] != "done": emit(**o)
        if not rows or rows[-1]["ev"] != "done" or st != 0: emit(ev="crash", how=st)

N = lambda s, l="": dict(sym=s, lib=l)
def vec(r, n=3): return [f32(r.choice([-2.0, -1.5, -1, -0.5, 0.5, 1, 2, 3])) for _ in range(n)]
def look(r, n): return S("lookup", n, vec(r), vec(r))

def names(r):
    c = r.random()
    if c < 0.2: return N(r.choice(ACTS))
    if c < 0.3: return N(r.choice(["nosuch", "", "Tanh", "tanh ", "tanh_act", "(unknown)", "softplu", "softpluss", "reluX", "sigmoid_derivative"]))
    lib = r.choice(["a", "a", "alink", "arel", "apath", "b", "b", "cat", "missing", "text", "dir"])
    sym = r.choice(["cube", "half", "bare", "relu", LONG, "nosuch", "", "Cube", "f%d" % r.randrange(100), "f1", "f10", "f100"])
    return N(sym, lib)

def network(r, id):
    """a network with such activations, predicted and differentiated"""
    sizes = [r.choice([1, 2, 3]) for _ in range(r.randint(2, 4))]
    acts = []
    for _ in sizes[1:]:
        while True:
            n = names(r)
            if n["sym"] not in ("bare",) and not (n["sym"] in ACTS and n["sym"] in ("exponential", "relu", "hard_sigmoid") and not n["lib"]): break
        acts.append(n)
    st = [S("make", id, sizes, acts), S("setp", id, rnd_params(r, sizes))]
    if r.random() < 0.7: st.append(S("predict", id, rnd_vec(r, sizes[0])))
    st += [S("loss", id, r.choice(["mse", "mean_squared_error"])), S("grad", id, rnd_vec(r, sizes[0]), rnd_vec(r, sizes[-1]))]
    return st

def history(r, n):
    st = []; seen = []; ids = []
    for k in range(n):
        c = r.random()
        if c < 0.55 or not seen: seen.append(names(r)); st.append(look(r, seen[-1]))
        elif c < 0.75: st.append(look(r, r.choice(seen)))
        elif c < 0.9 or not ids: ids.append(k + 1); st += network(r, k + 1)
        else:
            i = r.choice(ids); st.append(S("free", i)); ids.remove(i)
    return st + [look(r, n) for n in seen]

def run(rep):
    r = random.Random(vf.SEED + 26)
    T = vf.THOROUGH
    d = vf.sub("so-c26")
    so = {k: vf.cc_shared("acts.c", "lib%s26.so" % k, ["-DMANY", "-DK=%d" % v]) for k, v in (("a", 1), ("b", 3), ("c", 5))}
    at = os.path.join(d, "lib@s", "x" * 200, "y" * 200); os.makedirs(at, exist_ok=True)
    os.rename(so["c"], at + "/libc26@1.so")
    if not os.path.islink(d + "/link.so"): os.symlink(so["a"], d + "/link.so")
    open(d + "/text.so", "w").write("no library\n" * 400)
    paths = dict(a=so["a"], alink=d + "/link.so", arel=so["a"], apath=os.path.basename(so["a"]), b=so["b"], cat=at + "/libc26@1.so",
                 missing=d + "/missing.so", text=d + "/text.so", dir=d)
    beh = vf.behaviours(rep, "RegMC", "RegMC.cfg", "a registry under all sequences of 3 lookups of 18 names", workers=4)
    if vf.tlc("RegMC", open(vf.VERIF + "/spec/RegMC.cfg").read().replace("FORGETFUL = FALSE", "FORGETFUL = TRUE"), workers=4).ok: raise vf.TLCError("the control does not fail")
    seqs = [[look(r, n) for n in b] + [look(r, n) for n in r.sample(b, 2)] for b in beh]
    seqs += [history(r, r.randint(4, 40)) for _ in range(3000 if T else 160)]
    # the capacity of the registry: all functions of all libraries, then all of them again
    for k in range(4 if T else 2):
        every = [N("f%d" % i, l) for i in range(100) for l in ("a", "b", "cat")]; r.shuffle(every)
        seqs.append([look(r, n) for n in every] + network(r, 1) + [look(r, n) for n in r.sample(every, 100)])
    r.shuffle(seqs)
    lib = vf.build()
    env = {"LD_LIBRARY_PATH": os.path.dirname(so["a"])}
    jobs = [dict(name="names-%d" % k, mod="c26", func="scen", lib=lib, arg=dict(seqs=seqs[k::24], paths=paths), key="c26", env=env) for k in range(24)]
    vf.conform(rep, "RegTrace", jobs)
    rep.cov["lookups"] = sum(s[0] == "lookup" for j in jobs for q in j["arg"]["seqs"] for s in q)
