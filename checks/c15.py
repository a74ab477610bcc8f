"""C15: SGD's update rule at every step."""
import random, vf
from train import *

DEFAULTS = dict(sgd=dict(lr=0.01), adagrad=dict(lr=0.01), rmsprop=dict(lr=0.001, rho=0.9), adam=dict(lr=0.001, b1=0.9, b2=0.999, wd=1e-4))

def history(r, kind, sizes=None, epochs=None, progress=None, shuffle=None, default=False, gain=1.0, n=None, acts=None, **over):
    st = []
    shuffle = (r.random() < 0.3) if shuffle is None else shuffle
    loss = None
    if shuffle:                       # the specification must find the samples of each batch: keep their gradients apart
        sizes = r.choice([[3, 3], [5, 3], [3, 4, 2], [6, 2]]) if sizes is None or sizes[-1] == 1 else sizes
        acts = [r.choice(["linear", "tanh", "softsign", "sigmoid"]) for _ in sizes[1:]]
        loss, n = "mean_squared_error", n or r.choice([2, 3, 4, 5, 6])
        if kind != "sgd": n = min(n, 3)       # (the first step of an adaptive rule is the same for all of them)
    s, sizes, loss = rnd_net(r, 1, sizes, gain=gain, acts=acts, loss=loss)
    st.append(s)
    ni, no = sizes[0], sizes[-1]
    n = n or r.choice([1, 2, 3, 4, 5, 6, 7])
    st.append(S("data", 1, *rnd_data(r, n, ni, no, loss)))
    st.append(S("data", 2, *rnd_data(r, r.choice([1, 2, 3]), ni, no, loss)))
    hp = DEFAULTS[kind] if default else dict(rnd_hp(r, kind), **over)
    if shuffle and not default:
        hp["lr"] = min(hp["lr"], 0.05)
    progress = (shuffle or r.random() < 0.85) if progress is None else progress
    bs = r.choice([1, 2, 3, 3, 4, 8])
    if not progress:                  # nothing is seen between batches: few of them, so that the bounds stay small
        bs = max(bs, (n + 1) // 2)
    st.append(S("opt", 1, 1, kind, bs, shuffle, [r.choice(METRICS[:3])], progress, default, **hp))
    for k in range(epochs or r.choice([2, 3, 4])):
        st.append(S("epoch", 1, 2 if n > 2 and not shuffle and r.random() < 0.15 else 1, r.choice([0, 0, 2])))
        x = r.random()
        if x < 0.08: st.append(S("setp", 1, rnd_params(r, sizes)))            # the user changes the parameters between epochs
        elif x < 0.14 and not shuffle: st.append(S("loss", 1, r.choice(LOSSES[:2])))          # or the loss
    return dict(steps=st, seed=r.randrange(1 << 30), threads=r.choice([1, 2, 4]))

def counted(r, kind, n, **hp):
    """hundreds of updates of one optimizer, every one looked at: the counters behind the rates"""
    return dict(steps=[S("net", 1, [1, 1], ["linear"], "mean_squared_error", [0.5, -0.5]), S("data", 1, *rnd_data(r, n, 1, 1, "mean_squared_error")),
                       S("opt", 1, 1, kind, 1, False, [], True, **dict(rnd_hp(r, kind), lr=0.05, **hp)), S("epoch", 1, 1, 0), S("epoch", 1, 1, 0)], seed=1, threads=1)

def countless(r, kind, n, decay):
    """as many updates as it takes to leave 16 bits behind; almost all of them of samples that change nothing"""
    at = [1, 2, n - 1, n]
    return dict(steps=[S("net", 1, [4, 1], ["relu"], "mean_squared_error", [-5.0] + [1.0, 1.1, 0.9, 1.05]),
                       S("sparse", 1, n, at, [[10.0 if i == k else 0.0 for i in range(4)] for k in range(4)], [[1.0], [2.0], [1.5], [3.0]], [0.0] * 4, [0.0]),
                       S("opt", 1, 1, kind, 1, False, [], False, lr=0.05, decay=decay), S("epoch", 1, 1, 0)], seed=1, threads=1)

def run_kinds(rep, kinds, pid):
    r = random.Random(vf.SEED + hash(pid) % 1 + sum(map(ord, pid)))
    rep.model(vf.model_check("RuleMC", "RuleMC.cfg", workers=4), "update rules against their closed forms")
    cs = []
    for kind in kinds:
        cs.append(history(r, kind, default=True))
        cs.append(history(r, kind, default=True, sizes=[5, 4], epochs=3))
        for k in range(1200 if vf.THOROUGH else 60 // len(kinds) + 20):
            cs.append(history(r, kind))
        for n in ([7, 8, 9, 15, 16, 17, 31, 32, 33] if not vf.THOROUGH else range(1, 70)):   # numbers of parameters around the SIMD widths
            cs.append(history(r, kind, sizes=[1, 1, 1] if n == 4 else [n - 1, 1] if n > 1 else [1, 1], epochs=2, n=3))
        if kind != "adagrad" and kind != "adam":
            for nest in (False, True):
                cs.append(history(r, kind, nest=nest, mom=0.9, decay=0.1, epochs=5))
        for sizes in [[30, 33], [100, 12, 3], [257, 8], [520, 3]][:None if vf.THOROUGH or len(kinds) == 1 else 3]:   # many parameters
            cs.append(history(r, kind, sizes=sizes, epochs=2, n=2, shuffle=False, gain=0.3))
        cs.append(history(r, kind, epochs=12 if kind == "adam" else 8, n=4, **({} if kind == "adam" else dict(decay=0.3))))
    r.shuffle(cs)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        mine = cs if vi == 0 or vf.THOROUGH else cs[vi::6]
        k = 16 if vi == 0 else 4
        jobs += [dict(name="%s-%d" % (v, i), mod="train_play", func="play", lib=lib, arg=mine[i::k], key=pid.lower()) for i in range(k)]
    for kind in kinds:                                    # many updates
        jobs.append(dict(name="counted-%s" % kind, mod="train_play", func="play", lib=vf.build(), key=pid.lower(), arg=[counted(r, kind, 300, **({} if kind == "adam" else dict(decay=1e-4)))]))
        if vf.THOROUGH and kind != "adam": jobs.append(dict(name="countless-%s" % kind, mod="train_play", func="play", lib=vf.build(), key=pid.lower(), arg=[countless(r, kind, 70000, 1e-9)]))
    for kind in kinds:                                    # millions of parameters
        for j, N in enumerate([1000003, 699001, 70001, 2 ** 18 + 5][:None if vf.THOROUGH else 2]):
            jobs.append(dict(name="wide-%s-%d" % (kind, N), mod="train_play", func="play", lib=vf.build(), arg=[rnd_wide(r, kind, N)], key=pid.lower(), env={"OMP_NUM_THREADS": "8"}))
    vf.conform(rep, "TrainTrace", jobs)
    rep.cov["histories"] = sum(len(j["arg"]) for j in jobs)

def run(rep):
    run_kinds(rep, ["sgd"], "C15")
