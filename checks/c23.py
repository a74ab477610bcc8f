"""C23: activations and their derivatives match their definitions for every length and alignment."""
import random, vf
from nets import *

def scen(nn, arg, emit):
    L = nn.L
    for c in arg:
        f = vf_ptr(L.get_activation_func(c["name"].encode()))
        b = nn.buf(len(c["x"]), c["x"], align=64, misalign=c["mis"])
        L.sh_call_act(f, len(c["x"]), b)
        y = b.get()
        emit(ev="act", name=c["name"], x=fls(c["x"]), y=fls(y), guard=b.damage(), mis=c["mis"])
        if c.get("g"):
            d = vf_ptr(L.get_activation_derivative(f))
            bg = nn.buf(len(c["g"]), c["g"], align=64, misalign=c["mis2"])
            raw = b.raw()
            L.sh_call_der(d, len(c["g"]), b, bg)
            emit(ev="der", name=c["name"], a=fls(y), g=fls(c["g"]), r=fls(bg.get()), guard=b.damage() + bg.damage(), asame=b.raw() == raw)
            bg.free()
        b.free()

def vf_ptr(p):
    import ctypes
    return ctypes.c_void_p(p)

SPECIAL = [0.0, -0.0, 2.5, -2.5, 1.0, -1.0, 87.0, -87.0, 88.3, -88.3, 88.8, -88.8, 100.0, -100.0, 1e30, -1e30, 1e-30, 3e38, -3e38, 16.0, -17.5, 1e-7, 50.0, -50.0]

def cases(r):
    cs = []
    reps = 6 if vf.THOROUGH else 1
    for name in ACTS:
        for n in list(range(1, 36)) + [47, 48, 49, 63, 64, 65, 80] + WIDE:
            for _ in range(reps):
                sc = r.choice([1, 3, 3, 10, 40])
                x = [f32(r.uniform(-sc, sc)) for _ in range(n)]
                for k in range(n):
                    if r.random() < 0.12 and name != "softmax":
                        x[k] = f32(r.choice(SPECIAL))
                if name == "softmax" and r.random() < 0.3:
                    off = r.choice([80.0, 500.0, -300.0, 1e4]); x = [f32(v + off) for v in x]
                if name == "exponential":
                    x = [f32(min(v, 80.0)) for v in x]     # derivative of inf is not meaningful
                c = dict(name=name, x=x, mis=4 * r.randrange(16), mis2=4 * r.randrange(16))
                if not (name in ("softsign", "softplus", "linear", "relu") and max(abs(v) for v in x) > 1e6):
                    c["g"] = rnd_vec(r, n, 2.0)
                cs.append(c)
        # every special value at every lane position
        for k in range(0, 20):
            x = [f32(SPECIAL[(k + i) % len(SPECIAL)]) for i in range(24)]
            if name == "softmax":
                x = [v if abs(v) < 1e4 else 3.0 for v in x]
            cs.append(dict(name=name, x=x, mis=4 * (k % 16), mis2=0))
    r.shuffle(cs)
    return cs

def run(rep):
    r = random.Random(vf.SEED)
    rep.model(vf.model_check("FunMC", "FunMC.cfg", workers=vf.NCPU, heap="4g"), "definitions: derivatives, ranges, names over a grid")
    cs = cases(r)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        n = 8
        for k in range(n):
            mine = cs[k::n] if vi == 0 or vf.THOROUGH else cs[k::n][vi::4]
            jobs.append(dict(name="%s-%d" % (v, k), mod="c23", func="scen", lib=lib, arg=mine, key="c23"))
    vf.conform(rep, "FunTrace", jobs)
    rep.cov["calls"] = sum(len(j["arg"]) for j in jobs)
