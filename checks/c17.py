"""C17: optimizers and callbacks are independent of each other."""
import random, vf
import train
from train import rnd_net, rnd_hp, rnd_data
from cbgen import *

KINDS = ["sgd", "adagrad", "rmsprop", "adam"]
def optimizers(r, hist, kinds, shared):
    """an interleaving of the lives of optimizers, each of its own kind and settings, on one network or on their own"""
    st, n = [], max(h[0] for h in hist)
    sizes, loss = r.choice([([2, 2], "mean_squared_error"), ([3, 1], "mean_squared_error"), ([2, 2, 1], "mean_squared_error"), ([2, 2], "binary_crossentropy")])
    for i in range(1, (1 if shared else n) + 1):
        st.append(rnd_net(r, i, sizes, loss, [r.choice(["linear", "tanh", "sigmoid"]) for _ in sizes[2:]] + ["sigmoid" if loss[0] == "b" else "linear"])[0])
    for d, k in ((1, 4), (2, 3), (3, 1)):
        st.append(S("data", d, *rnd_data(r, k, sizes[0], sizes[-1], loss)))
    for i, op in hist:
        if op == "new":
            ms = r.choice([[], [], ["mean_squared_error"], ["mean_absolute_error", "binary_accuracy"]])
            if r.random() < 0.15: st.append(S("opt", i, 1 if shared else i, kinds[i - 1], r.choice([1, 2, 3]), r.random() < 0.4, ms, True, **rnd_hp(r, kinds[i - 1])))
            else: st.append(S("opt", i, 1 if shared else i, kinds[i - 1], r.choice([1, 2, 3, 8]), r.random() < 0.4, ms, True, **rnd_hp(r, kinds[i - 1])))
        elif op == "free": st.append(S("freeopt", i))
        else:
            st.append(S("epoch", i, r.choice([1, 1, 2, 3]), r.choice([0, 0, 2])))
            if r.random() < 0.1: st.append(S("loss", 1 if shared else i, loss))
    return dict(steps=st, seed=r.randrange(1 << 30), threads=r.choice([1, 2, 4]))

def callbacks(r, hist, kinds):
    """an interleaving of the lives of callbacks of any kind, on one or two networks and optimizers"""
    mm = {o: metrics(r) for o in (1, 2)}
    st = [S("net", 1, [2, 1], ["linear"], 1), S("net", 2, [1, 2], ["tanh"], 2), S("opt", 1, 1, mm[1]), S("opt", 2, r.choice([1, 2]), mm[2], r.randrange(4))]
    cfg = {}
    for i, op in hist:
        k = kinds[i - 1]
        if op == "new":
            o = r.choice([1, 2]); valid = r.random() < 0.5; cfg[i] = (o, valid)
            idx = r.choice([-1, r.randrange(max(1, len(mm[o])) * (1 + valid))]); cfg[i] = (o, valid, idx)
            if k == "es": st.append(S("es", i, r.choice([0, 0, 1]), idx, r.random() < 0.5))
            elif k == "mc": st.append(S("mc", i, r.choice(["a.npz", "b%d.npz" % i]), idx, r.random() < 0.5, r.random() < 0.3))
            else: st.append(S("log", i, r.choice(["a.log", "b%d.log" % i, "(none)"]), r.choice([0, 0, 3]), r.random() < 0.3))
        elif op == "free": st.append(S("free", i))
        else:
            o, valid, idx = cfg[i]
            if k == "mc" and r.random() < 0.7: st.append(S("setp", r.choice([1, 2]), r.randrange(1 << 20)))
            v = bits(r.choice([-1.0, 0.0, 1.0, 2.0])) if r.random() < 0.8 else rbits(r)
            st.append(S("run", [i], o, others(r, max(1, len(mm[o])), valid, idx, v), valid))
            if r.random() < 0.3: st.append(S("flags"))
    return st

def threads(r, n, epochs):
    """optimizers of any kinds, each trained by a thread of its own at the same time"""
    st, jobs = [], []
    for i in range(1, n + 1):
        sizes, loss = r.choice([([2, 2], "mean_squared_error"), ([5, 3], "mean_squared_error"), ([3, 4, 1], "mean_squared_error"), ([2, 17], "mean_squared_error"), ([3, 2], "binary_crossentropy")])
        st.append(rnd_net(r, i, sizes, loss, [r.choice(["linear", "tanh", "sigmoid"]) for _ in sizes[2:]] + ["sigmoid" if loss[0] == "b" else "linear"])[0])
        st.append(S("data", i, *rnd_data(r, r.choice([4, 7, 12]), sizes[0], sizes[-1], loss)))
        k = r.choice(KINDS)
        st.append(S("opt", i, i, k, r.choice([1, 2, 3, 5]), False, r.choice([[], ["mean_squared_error", "mean_absolute_error"]]), False, **rnd_hp(r, k)))
        jobs.append([i, i, r.choice([0, i])])
    st.append(S("together", jobs, epochs, r.choice([1, 1, 2])))
    return dict(steps=st, seed=r.randrange(1 << 30))

def callback_threads(r, n, iters):
    mm = {o: metrics(r) for o in (1, 2)}
    st = [S("net", 1, [2, 1], ["linear"], 1), S("net", 2, [1, 2], ["tanh"], 2), S("opt", 1, 1, mm[1]), S("opt", 2, 2, mm[2], r.randrange(4))]
    jobs = []
    for i in range(1, n + 1):
        k = r.choice(["es", "mc", "log"]); o = r.choice([1, 2]); valid = r.random() < 0.5
        idx = r.choice([-1, r.randrange(max(1, len(mm[o])) * (1 + valid))])
        if k == "es": st.append(S("es", i, r.choice([0, 1, 3]), idx, r.random() < 0.5))
        elif k == "mc": st.append(S("mc", i, "c%d.npz" % i, idx, r.random() < 0.5, False))
        else: st.append(S("log", i, "l%d.log" % i, r.choice([0, 5]), True))
        jobs.append([i, o, [others(r, max(1, len(mm[o])), valid, idx, bits(r.choice([-1.0, 0.0, 1.0, 2.0])) if r.random() < 0.8 else rbits(r)) for _ in range(iters)], valid])
    st.append(S("together", jobs, iters))
    return st

def run(rep):
    r = random.Random(vf.SEED + 17)
    T = vf.THOROUGH
    cfg = open(vf.VERIF + "/spec/LifeMC.cfg").read()
    three = vf.behaviours(rep, "LifeMC", cfg, "interleaved lives of three instances", workers=1, heap="6g")
    two = vf.behaviours(rep, "LifeMC", cfg.replace("N = 3", "N = 2").replace("Runs = 2", "Runs = 3"), "interleaved lives of two instances", workers=1)
    opts, cbs = [], []
    for a in KINDS:
        for b in KINDS:
            for shared in (False, True):
                for h in (two if T else r.sample(two, 10)):
                    opts.append(optimizers(r, h["hist"], [a, b], shared))
    for h in r.sample(three, 4000 if T else 60): opts.append(optimizers(r, h["hist"], [r.choice(KINDS) for _ in range(3)], r.random() < 0.4))
    CK = ["es", "mc", "log"]
    for a in CK:
        for b in CK:
            for h in two: cbs += [callbacks(r, h["hist"], [a, b]) for _ in range(2 if T else 1)]
    for h in r.sample(three, 20000 if T else 900): cbs.append(callbacks(r, h["hist"], [r.choice(CK)] * 3 if r.random() < 0.5 else [r.choice(CK) for _ in range(3)]))
    conc = [threads(r, r.choice([2, 3, 4, 8]), r.choice([3, 5])) for _ in range(400 if T else 32)]
    ccb = [callback_threads(r, r.choice([2, 4, 8, 16]), r.choice([5, 10])) for _ in range(400 if T else 48)]
    rep.cov.update(threads_training=len(conc), threads_running_callbacks=len(ccb))
    rep.cov.update(interleavings=len(three) + len(two), optimizer_histories=len(opts), callback_histories=len(cbs))
    r.shuffle(opts); r.shuffle(cbs)
    lib = vf.build(); k = 64 if T else 16
    q = 64 if T else 16
    vf.conform(rep, "TrainTrace", [dict(name="threads-%d" % i, mod="train_play", func="play", lib=lib, arg=conc[i::q], key="c17t") for i in range(q)], retries=6, par_drive=3)
    vf.conform(rep, "CbTrace", [dict(name="callback-threads-%d" % i, mod="cb_play", func="play", lib=lib, arg=ccb[i::q], key="c17t") for i in range(q)], retries=6, par_drive=3)
    vf.conform(rep, "CbTrace", [dict(name="callbacks-%d" % i, mod="cb_play", func="play", lib=lib, arg=cbs[i::k], key="c17") for i in range(k)])
    vf.conform(rep, "TrainTrace", [dict(name="optimizers-%d" % i, mod="train_play", func="play", lib=lib, arg=opts[i::k], key="c17") for i in range(k)])
