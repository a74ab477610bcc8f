"""C21: epoch results are the means of the configured metrics on the final network; evaluation is that mean for any threads."""
import random, vf
from train import *

def metric_list(r, loss, k=None):
    # accuracies and (binary) crossentropies need targets of their kind: rnd_target gives those of the loss
    ok = ["mean_squared_error", "mean_absolute_error", "binary_accuracy", "categorical_accuracy"]
    if loss in ("categorical_crossentropy", "binary_crossentropy"): ok.append(loss)
    else: ok.append("mean_absolute_percentage_error")
    return [r.choice(ok) for _ in range(k or r.choice([1, 1, 2, 3, 4, 6]))]

def acts_for(r, sizes, loss):
    a = [r.choice(SMOOTH + ["exponential"]) for _ in sizes[1:]]
    if loss == "categorical_crossentropy": a[-1] = "softmax"
    if loss == "binary_crossentropy": a[-1] = "sigmoid"
    return a

def network(r, lib=None, mode=None):
    sizes = r.choice([[3, 2], [1, 1], [4, 3, 2], [2, 5], [7, 4, 3], [17, 3], [2, 2, 2, 2], [5, 9, 1], [3, 16]])
    loss = r.choice(LOSSES)
    acts = acts_for(r, sizes, loss)
    if mode: acts.insert(0, "%s@%s" % (mode, lib)); sizes = [sizes[0]] + sizes
    return S("net", 1, sizes, acts, loss, rnd_params(r, sizes)), sizes, loss

def evaluation(r, lib=None, mode=None, n=None, threads=None, k=None):
    net, sizes, loss = network(r, lib, mode)
    n = n or r.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 50])
    st = ([S("gate", lib, min(threads, n))] if mode == "gate" else []) + [net, S("data", 1, *rnd_data(r, n, sizes[0], sizes[-1], loss))]
    ms = metric_list(r, loss, k)
    st += [S("evaluate", 1, 1, ms)]
    for _ in range(4 if mode else 1):
        st += [S("evaluate", 1, 1, ms if mode != "gate" else ms[:1])]
    if r.random() < 0.4:
        st += [S("setp", 1, rnd_params(r, sizes)), S("evaluate", 1, 1, metric_list(r, loss))]
    return dict(steps=st, threads=threads or r.choice([1, 2, 3, 4, 5, 6, 7, 8]), seed=r.randrange(1 << 30))

def epochs(r, kind=None, threads=None, k=None):
    net, sizes, loss = network(r)
    n, nv = r.choice([1, 2, 3, 5, 8, 11]), r.choice([1, 2, 4, 9])
    st = [net, S("data", 1, *rnd_data(r, n, sizes[0], sizes[-1], loss)), S("data", 2, *rnd_data(r, nv, sizes[0], sizes[-1], loss))]
    kind = kind or r.choice(["probe", "probe", "sgd", "adagrad", "rmsprop", "adam"])
    ms = [] if r.random() < 0.3 and not k else metric_list(r, loss, k)
    progress = kind == "probe" or r.random() < 0.6
    # the list is fixed when the optimizer is made, even if the loss changes afterwards
    st.append(S("opt", 1, 1, kind, max(1, n // r.choice([1, 1, 2])), kind == "probe" and r.random() < 0.5, ms, progress, lr=0.01))
    for k in range(r.choice([1, 2, 3])):
        v = r.choice([0, 2])
        st.append(S("epoch", 1, 1, v, **({} if v else dict(novalid=r.choice([None, "x", "y", "n"])))))
        if r.random() < 0.2 and loss.startswith("mean"): st.append(S("loss", 1, r.choice(["mean_squared_error", "mean_absolute_error"])))
        if kind == "probe": st.append(S("setp", 1, rnd_params(r, sizes)))
    return dict(steps=st, threads=threads or r.choice([1, 2, 3, 4, 8]), seed=r.randrange(1 << 30))

def run(rep):
    r = random.Random(vf.SEED + 21)
    rep.model(vf.model_check("MeanMC", "MeanMC.cfg", workers=vf.NCPU), "parallel accumulation: every interleaving of the threads")
    gate = vf.cc_shared("gate.c", "libgate.so", ["-lpthread"])
    cs = []
    T = vf.THOROUGH
    for t in range(1, 9):
        for n in (1, 2, t, t + 1, 13):
            cs.append(evaluation(r, gate, "jitter", n, t))
        cs.append(evaluation(r, gate, "gate", t, t))
    cs += [evaluation(r) for _ in range(1500 if T else 150)]
    cs += [epochs(r) for _ in range(1500 if T else 160)]
    for kind in ["probe", "sgd", "adagrad", "rmsprop", "adam"]:
        cs += [epochs(r, kind) for _ in range(8)]
    for k in list(range(1, 21)) + [31, 32, 33]:            # any number of metrics
        cs.append(evaluation(r, n=r.choice([3, 9]), k=k)); cs.append(epochs(r, "probe", k=k))
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513):
        cs.append(evaluation(r, n=n, k=2))
    r.shuffle(cs)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        mine = cs if vi == 0 or T else cs[vi::6]
        k = 16 if vi == 0 else 4
        jobs += [dict(name="%s-%d" % (v, i), mod="train_play", func="play", lib=lib, arg=mine[i::k], key="c21", env={"OMP_NUM_THREADS": "8"}) for i in range(k)]
    for k in range(3 if T else 1):                        # data sets of more numbers than an int counts
        st, n = rnd_vast(r, r.choice([5003, 8191, 12289]), 2 ** 31)
        jobs.append(dict(name="vast-%d" % k, mod="train_play", func="play", lib=vf.build(), key="c21", env={"OMP_NUM_THREADS": "8"},
                         arg=[dict(steps=st + [S("evaluate", 1, 1, ["mean_squared_error", "mean_absolute_error"])], threads=8, seed=1)]))
    vf.conform(rep, "TrainTrace", jobs, par_drive=3, retries=6)
    rep.cov["histories"] = sum(len(j["arg"]) for j in jobs)
