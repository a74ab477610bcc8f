"""C13: every epoch uses every sample exactly once, paired with its own target."""
import random, vf
from train import *

KINDS = ["sgd", "adagrad", "rmsprop", "adam"]
def replay(r, b):
    """one behaviour of TrainMC: two optimizers, each with its own network, on data sets of changing size"""
    st, sizes = [], [5, 3]
    kinds = [r.choice(["sgd", "sgd", "adagrad", "rmsprop"]) for _ in b["opts"]]
    shared = r.random() < 0.4            # both optimizers train the same network
    for i, o in enumerate(b["opts"]):
        s, _, _ = rnd_net(r, i + 1, sizes, "mean_squared_error", [r.choice(["linear", "tanh", "softsign"])])
        st.append(s)
        st.append(S("opt", i + 1, 1 if shared else i + 1, kinds[i], o["bs"], o["shuffle"], [], True, lr=0.05, **({} if kinds[i] != "sgd" else {})))
        if shared and i == 0: pass
    if shared:                            # (the second network exists but is not trained)
        pass
    for n in sorted({h["n"] for h in b["hist"]}):
        # one-hot inputs: the rows of the first layer that change show which samples a batch had; targets differ per sample
        xs, ys = rnd_data(r, n, 5, 3, "mean_squared_error", onehot=True)
        st.append(S("data", n, xs, ys))
    tuned = r.random() < 0.4             # the public settings change on the way
    for h in b["hist"]:
        if tuned and r.random() < 0.5: st.append(S("tune", h["o"], r.choice([1, 2, 3, 5]), r.random() < 0.5))
        st.append(S("epoch", h["o"], h["n"], 0))
    return dict(steps=st, seed=r.randrange(1 << 30), threads=r.choice([1, 2, 3]))

def big(r, n, bs, shuffle, kind, epochs=2, sizes2=1):
    """many samples: the driver names the samples whose rows changed, the specification verifies them"""
    st = []
    s, sizes, _ = rnd_net(r, 1, [n, sizes2], "mean_squared_error", ["linear"])
    st.append(s)
    xs, ys = rnd_data(r, n, n, sizes2, "mean_squared_error", onehot=True)
    ys = [[f32(v + 3) for v in y] for y in ys]
    st.append(S("data", 1, xs, ys))
    st.append(S("opt", 1, 1, kind, bs, shuffle, [], True, lr=0.05))
    st += [S("epoch", 1, 1, 0, hint=shuffle) for _ in range(epochs)]
    return dict(steps=st, seed=r.randrange(1 << 30), threads=r.choice([1, 4, 8]))

def tuned(r, n, kind):
    """shuffling switched off and on again, batches growing"""
    c = big(r, n, r.choice([1, 2, 3, 5]), r.random() < 0.5, kind, epochs=1)
    st = c["steps"]
    on = st[2][1][4]
    for _ in range(3):
        sh = r.random() < 0.5; on = on or sh
        st += [S("tune", 1, r.choice([1, 2, 4, 7, n, n + 3]), sh), S("epoch", 1, 1, 0, hint=on)]
    return c

def sparse_data(r, n, bs, id=1, K=8):
    """n samples of which K, told apart by their input, have a gradient: at the ends, around the batch borders, anywhere"""
    at = {1, n}
    for k in (65536, 32768, bs): at |= {p for p in (k, k + 1) if 1 < p < n and r.random() < 0.7}
    at = set(r.sample(sorted(at), min(K, len(at))))
    while len(at) < min(K, n): at.add(r.randint(1, n))
    at = sorted(at); r.shuffle(at)
    xs = [[10.0 if i == k else 0.0 for i in range(K)] for k in range(len(at))]
    return K, S("sparse", id, n, at, xs, [[f32(r.choice([1, 2, 3, 4, 8]) + k / 16)] for k in range(len(at))], [0.0] * K, [0.0])

def sparse_net(r, K, id=1):
    # a relu that a blank does not reach: its gradient is zero
    return S("net", id, [K, 1], ["relu"], "mean_squared_error", [-5.0] + [f32(r.uniform(0.9, 1.2)) for _ in range(K)])

def many(r, n, bs, shuffle, kind, epochs=2):
    """data sets of many samples, most of them without a gradient"""
    K, d = sparse_data(r, n, bs)
    st = [sparse_net(r, K), d, S("opt", 1, 1, kind, bs, shuffle, [], True, lr=0.02)]
    if kind == "probe":
        # all batches of an epoch in their order
        for _ in range(epochs): st.append(S("probe", 1, 1, list(range(0, n, bs)), 1, 0.0, shuffle))
    else:
        st += [S("epoch", 1, 1, 0, hint=shuffle) for _ in range(epochs)]
    return dict(steps=st, seed=r.randrange(1 << 30), threads=r.choice([1, 4]))

def momentum(r, kind):
    """shuffling with the settings under which nothing but the specification can tell the samples"""
    from checks.c15 import history
    return history(r, kind, shuffle=True, epochs=3)

def run(rep):
    r = random.Random(vf.SEED + 13)
    rep.model(vf.model_check("TrainMC", "TrainMC.cfg", workers=vf.NCPU, heap="6g"), "every sample once: all sizes, batch sizes and permutations")
    beh = vf.behaviours(rep, "TrainMC", "TrainBeh.cfg", "epochs of two optimizers over changing data sets", workers=1)
    pick = beh if vf.THOROUGH else r.sample(beh, 160)
    cs = [replay(r, b) for b in pick]
    rep.cov["behaviours"] = len(beh); rep.cov["behaviours_replayed"] = len(cs)
    for n in list(range(1, 26)) + [31, 32, 33, 40]:
        for shuffle in (False, True):
            cs.append(big(r, n, r.choice([1, 2, 3, 5, 7, 8, 10, 16, 32, 50]), shuffle, r.choice(["sgd", "sgd", "adagrad", "rmsprop"]), epochs=2))
    for k in range(60 if vf.THOROUGH else 16): cs.append(tuned(r, r.choice([2, 3, 5, 8, 12, 16, 20]), r.choice(["sgd", "adagrad", "rmsprop"])))
    for bs in range(1, 14):
        cs.append(big(r, 12, bs, True, "sgd", epochs=3)); cs.append(big(r, 12, bs, False, "adam", epochs=2))
    for n, bs in [(300, 7), (1000, 64), (4097, 128), (32769, 1024), (40000, 40000), (65536, 4096), (65537, 65536), (70001, 5000), (70000, 70000), (140000, 8192)]:
        for shuffle in (False, True):
            for kind in KINDS[:3] + ["probe"] if vf.THOROUGH else ["probe", r.choice(KINDS[:3])]:
                cs.append(many(r, n, bs, shuffle, kind))
    for k in range(400 if vf.THOROUGH else 30):
        cs.append(momentum(r, KINDS[k % 4]))
    r.shuffle(cs)
    lib = vf.build()
    k = 24
    jobs = [dict(name="epochs-%d" % i, mod="train_play", func="play", lib=lib, arg=cs[i::k], key="c13") for i in range(k)]
    for j in range(4 if vf.THOROUGH else 2):             # data sets of more numbers than an unsigned counts
        st, n = rnd_vast(r, r.choice([4096, 5003, 8191]), 2 ** 32, onehot=True)
        kind = ["probe", "sgd", "adagrad", "rmsprop"][j]; bs = r.choice([2 ** 17 + 1, 300000])
        st += [S("opt", 1, 1, kind, bs, j % 2 == 1, [], True, lr=0.02),
               S("probe", 1, 1, [0, (n - 1) // bs * bs], 1, 0.0) if kind == "probe" else S("epoch", 1, 1, 0, hint=True)]
        jobs.append(dict(name="vast-%d" % j, mod="train_play", func="play", lib=lib, arg=[dict(steps=st, threads=8, seed=1)], key="c13", env={"OMP_NUM_THREADS": "8"}))
    vf.conform(rep, "TrainTrace", jobs)
    rep.cov["histories"] = len(cs)
