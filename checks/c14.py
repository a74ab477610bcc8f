"""C14: a batch's gradient is the mean of its samples' gradients, for any number of threads and any scheduling."""
import random, vf
from train import *

def case(r, sizes=None, n=None, bs=None, threads=None, act=None, times=1, shuffle=False, lib=None, loss=None):
    sizes = sizes or rnd_sizes(r, cap=150)
    n = n or r.choice([1, 2, 3, 5, 8, 9, 12, 17])
    bs = bs or r.choice([1, 2, 3, 4, 5, 8, 9, 16, 20])
    acts = [r.choice(SMOOTH + ["exponential"]) for _ in sizes[1:]]
    loss = loss or r.choice(LOSSES)
    st = []
    if act:
        i = r.randrange(len(acts))
        acts[i] = "%s@%s" % (act, lib)
        st.append(S("gate", lib, min(threads, bs, n)))
    st.append(S("net", 1, sizes, acts, loss, rnd_params(r, sizes)))
    st.append(S("data", 1, *rnd_data(r, n, sizes[0], sizes[-1], loss)))
    st.append(S("opt", 1, 1, "probe", bs, shuffle, []))
    # consecutive batches, as an epoch asks for them, then some from anywhere
    starts = list(range(0, n, bs))[:6]
    if not shuffle:
        starts += [r.randrange(n) for _ in range(2)]
    st.append(S("probe", 1, 1, starts, times, r.choice([0.0, 1e6, float("nan")])))
    return dict(steps=st, threads=threads or r.choice([1, 2, 3, 4, 5, 7, 8]), seed=r.randrange(1 << 30))

def run(rep):
    r = random.Random(vf.SEED + 14)
    rep.model(vf.model_check("MeanMC", "MeanMC.cfg", workers=vf.NCPU), "parallel accumulation: every interleaving of the threads")
    gate = vf.cc_shared("gate.c", "libgate.so", ["-lpthread"])
    cs = []
    for _ in range(900 if vf.THOROUGH else 90):
        cs.append(case(r))
    for t in range(1, 9):                               # every number of threads, against batches smaller and larger than it
        for bs in (1, 3, 8, 11):
            cs.append(case(r, n=11, bs=bs, threads=t, act="jitter", lib=gate, times=3))
    for bs in (33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300):         # batches far larger than the number of threads
        cs.append(case(r, sizes=r.choice([[1, 1], [2, 1], [2, 2]]), n=bs + r.choice([0, 0, 1, 7]), bs=bs))
    for k in range(60 if vf.THOROUGH else 12):              # threads released together, many times
        cs.append(case(r, sizes=r.choice([[6, 20, 3], [30, 10], [4, 8, 8, 2]]), n=8, bs=8, threads=r.choice([2, 4, 8]), act="gate", lib=gate, times=40))
    for k in range(10 if vf.THOROUGH else 3):
        cs.append(case(r, sizes=[33, 40, 5], n=8, bs=8, threads=8, act="gate", lib=gate, times=12))
    for sizes in [[100, 20], [300, 10, 4], [513, 4], [3, 257, 2]]:                              # many parameters
        cs.append(case(r, sizes=sizes, n=3, bs=r.choice([2, 3])))
    for k in range(20):
        cs.append(case(r, sizes=[4, 3], n=r.choice([2, 3, 4, 5]), bs=r.choice([1, 2, 3]), shuffle=True, loss="mean_squared_error"))
    r.shuffle(cs)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        mine = cs if vi == 0 or vf.THOROUGH else cs[vi::6]
        k = 16 if vi == 0 else 4
        jobs += [dict(name="%s-%d" % (v, i), mod="train_play", func="play", lib=lib, arg=mine[i::k], key="c14", env={"OMP_NUM_THREADS": "8"}) for i in range(k)]
    for N in [300007, 699001, 1000003, 1500001][:None if vf.THOROUGH else 3]:                    # millions of parameters
        jobs.append(dict(name="wide-%d" % N, mod="train_play", func="play", lib=vf.build(), arg=[rnd_wide(r, "probe", N)], key="c14", env={"OMP_NUM_THREADS": "8"}))
    vf.conform(rep, "TrainTrace", jobs, par_drive=3, retries=6)
    rep.cov["histories"] = sum(len(j["arg"]) for j in jobs)
