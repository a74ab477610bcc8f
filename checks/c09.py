"""C09: concurrent and batched predictions equal single predictions."""
import random, vf
from train import S
from nets import *

def scen(nn, arg, emit):
    d = ND(nn, emit)
    for steps in arg:
        for s in steps: getattr(d, s[0])(*s[1], **s[2])
        d.reset()

def samples(r, n, ni): return [rnd_vec(r, ni) for _ in range(n)]
def net(r, id, sizes, lib=None, act=None):
    acts = rnd_acts(r, sizes)
    if act: acts[r.randrange(len(acts) - 1) if len(acts) > 1 else 0] = "%s@%s" % (act, lib)
    return [S("create", id, sizes, acts), S("setp", id, rnd_params(r, sizes))]

def batches(r, sizes=None, n=None, threads=None):
    sizes = sizes or rnd_sizes(r, cap=400)
    st = [S("threads", threads or r.choice([1, 2, 3, 4, 8, 16]))] + net(r, 1, sizes)
    for k in ([n] if n is not None else [r.choice([0, 1, 2, 3, 5, 8]), r.choice([1, 7, 13, 20])]):
        st.append(S("batch", 1, samples(r, k, sizes[0]), r.choice([0, 4, 20]), r.choice([0, 4, 12, 36]), times=3))
        st.append(S("evalrows", 1, samples(r, k, sizes[0]), times=3) if k else S("threads", 2))
    return st

def vast(r, ni, sizes):
    """more numbers than an int counts"""
    half = 2 ** 31 // ni; n = half + r.choice([2, 3, 9])
    at = sorted({0, half - 1, half, n - 1, r.randrange(1, half), r.randrange(half + 1, n - 1) if n > half + 2 else half})
    xs = [[0.0] * ni for _ in at]
    for x in xs:
        for i in r.sample(range(ni), 5) + [0, ni - 1]: x[i] = rnd_vec(r, 1)[0]
    return net(r, 1, [ni] + sizes) + [S("vast", 1, n, at, xs)]

def together(r, lib, act, threads, mode=None, two=False):
    """threads predicting at once, meeting or delayed in the middle of each prediction"""
    sizes = r.choice([[3, 20, 2], [2, 5, 9, 3], [4, 17, 17, 1], [1, 33, 3], [5, 3, 3]])
    st = [S("threads", r.choice([1, 2, 4]) if mode != 0 else 2), S("gate", lib, threads if act == "gate" else 0)] + net(r, 1, sizes, lib, act)
    if two: st += net(r, 2, sizes[:-1] + [r.choice([1, 4, 7])], lib, act)
    k = r.choice([1, 2, 4, 5])
    shared = samples(r, k, sizes[0])
    jobs = [(r.choice([1, 2]) if two else 1, shared if r.random() < 0.3 else samples(r, k, sizes[0]), r.choice([0, 0, 0, 1]) if mode is None else mode) for t in range(threads)]
    return st + [S("concurrent", jobs, 12)]

def run(rep):
    r = random.Random(vf.SEED + 9)
    T = vf.THOROUGH
    rep.model(vf.model_check("PredMC", "PredMC.cfg", workers=vf.NCPU), "threads predicting at once: every interleaving")
    if vf.tlc("PredMC", open(vf.VERIF + "/spec/PredMC.cfg").read().replace("SHARED = FALSE", "SHARED = TRUE"), workers=4).ok: raise vf.TLCError("the control does not fail")
    gate = vf.cc_shared("gate.c", "libgate.so", ["-lpthread"])
    cs = []
    for w in list(range(1, 41)) + [47, 48, 49, 64, 65]: cs.append(batches(r, [r.choice([1, 2, 3]), w], r.choice([1, 2, 3, 5]))); cs.append(batches(r, [r.choice([1, 5]), r.choice([1, 17]), w], 3))
    for n in list(range(0, 36)) + [63, 64, 65, 100]: cs.append(batches(r, r.choice([[2, 3], [3, 1], [2, 3, 2]]), n))
    for n in (255, 256, 257, 300, 511, 513, 700): cs.append(batches(r, r.choice([[2, 2], [1, 1], [1, 2, 1]]), n))
    for w in WIDE:
        if w < 1100: cs.append(batches(r, [w, 1], 3)); cs.append(batches(r, [1, w], 3)); cs.append(batches(r, [1, w, 1], 2))
    for n in (1000, 1024, 1025, 2049): cs.append(batches(r, [1, 1], n))
    for _ in range(600 if T else 60): cs.append(batches(r))
    for t in (2, 3, 4, 6, 8, 16):
        for k in range(20 if T else 3):
            cs.append(together(r, gate, "jitter", t, two=k % 2 == 1)); cs.append(together(r, gate, "gate", min(t, 8), mode=0, two=k % 2 == 0))
    r.shuffle(cs)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        mine = cs if vi == 0 or T else cs[vi::5]
        k = 16 if vi == 0 else 4
        jobs += [dict(name="%s-%d" % (v, i), mod="c09", func="scen", lib=lib, arg=mine[i::k], key="c09", env={"OMP_NUM_THREADS": "8"}) for i in range(k)]
    for k, ni in enumerate((4096, 8191, 65536) if T else (8191,)):
        jobs.append(dict(name="vast-%d" % k, mod="c09", func="scen", lib=vf.build(), arg=[vast(r, ni, r.choice([[1], [2], [3, 1]]))], key="c09", env={"OMP_NUM_THREADS": "8"}))
    vf.conform(rep, "NNTrace", jobs, par_drive=3, retries=6)
    rep.cov["histories"] = sum(len(j["arg"]) for j in jobs)
