"""C19: the checkpoint file always holds the best epoch's network."""
import random, vf
from cbgen import *
from nets import ACTS

FILES = ["a.npz", "best model.npz", "dir/b.npz", "100%.npz", "%s%d.npz", "%n", "checkpoint.npz", "x" * 100, "no-extension", "c.npz"]
def nets(r, ids):
    return [S("net", i, s, [r.choice(ACTS) for _ in s[1:]], r.randrange(1 << 20)) for i in ids for s in [r.choice([[1, 1], [2, 1], [2, 3, 1], [3, 2, 2], [1, 17], [9, 2]])]]

def enumerated(r, seq):
    ms = metrics(r); m = max(1, len(ms)); valid = r.random() < 0.5
    idx = r.choice([-1, -1, r.randrange(m * (1 + valid))])
    f = r.sample(FILES, 2)
    st = nets(r, [1]) + [S("opt", 1, 1, ms)]
    for k in ("dir/old.txt",): st.append(S("old", k, ["not a network"]))
    st += [S("mc", 1, f[0], idx, False, r.random() < 0.4), S("mc", 2, f[1], idx, True, r.random() < 0.4)]
    for t, v in enumerate(seq):
        st.append(S("setp", 1, r.randrange(1 << 20)))
        st.append(S("run", [1, 2] if t % 2 else [2, 1], 1, others(r, m, valid, idx, v), valid))
    return st

def long(r):
    st = nets(r, [1, 2]) + [S("old", "dir/old.txt", ["x"]), S("old", "a.npz", ["this is no archive"])]
    mm = {}
    for o in (1, 2, 3):
        ms = metrics(r); mm[o] = max(1, len(ms)); st.append(S("opt", o, r.choice([1, 2]), ms, r.randrange(4)))
    live, cfg, nid = [], {}, 0
    for step in range(r.choice([15, 30])):
        x = r.random()
        if (x < 0.2 and len(live) < 5) or not live:
            nid += 1; o = r.choice([1, 2, 3]); valid = r.random() < 0.5
            idx = r.choice([-1, -1, -7, r.randrange(mm[o] * (1 + valid))])
            if r.random() < 0.2: st.append(S("mc", nid, default=True)); idx = -1
            else: st.append(S("mc", nid, r.choice(FILES + ["(none)"]), idx, r.random() < 0.5, r.random() < 0.3))
            live.append(nid); cfg[nid] = (o, idx, valid)
        elif x < 0.25 and len(live) > 1: st.append(S("free", live.pop(r.randrange(len(live)))))
        elif x < 0.28: st.append(S("rm", r.choice(FILES)))
        else:
            i = r.choice(live); o, idx, valid = cfg[i]
            if idx < 0 and r.random() < 0.1: valid = not valid
            for _ in range(r.choice([1, 2, 3])):
                if r.random() < 0.8: st.append(S("setp", r.choice([1, 2]), r.randrange(1 << 20)))
                v = r.choice(NUMS) if r.random() < 0.3 else bits(f32(r.uniform(-2, 2)))
                st.append(S("run", [i], o, others(r, mm[o], valid, max(idx, -1), v), valid))
    return st

def training(r):
    st = [S("net", 1, [2, 3, 1], ["tanh", "linear"], r.randrange(99)), S("opt", 1, 1, ["mean_squared_error", "mean_absolute_error"], r.randrange(4)),
          S("mc", 1, "a.npz", 0), S("mc", 2, "b.npz", 1, True), S("mc", 3, "c.npz", -1, False, True), S("mc", 4, default=True)]
    return st + [S("train", [1, 2, 3, 4], 1, r.choice([3, 8]), r.random() < 0.7, r.randrange(1 << 20)) for _ in range(8)]

def run(rep):
    r = random.Random(vf.SEED + 19)
    T = vf.THOROUGH
    beh = vf.behaviours(rep, "CbMC", "CbMC.cfg", "stopping and checkpointing over all score sequences", workers=1)
    pick = beh if T else r.sample(beh, 700)
    cs = [enumerated(r, b["seq"]) for b in pick]
    cs += [long(r) for _ in range(800 if T else 90)] + [training(r) for _ in range(120 if T else 20)]
    rep.cov.update(behaviours=len(beh), behaviours_replayed=len(pick), histories=len(cs))
    r.shuffle(cs)
    lib = vf.build(); k = 48 if T else 16
    vf.conform(rep, "CbTrace", [dict(name="checkpoints-%d" % i, mod="cb_play", func="play", lib=lib, arg=cs[i::k], key="c19") for i in range(k)])
