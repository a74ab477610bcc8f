"""C18: early stopping triggers exactly when patience is exceeded."""
import random, vf
from cbgen import *

def enumerated(r, seq):
    """stoppers of every direction and patience, run side by side on one enumerated sequence of scores"""
    ms = metrics(r); m = max(1, len(ms)); valid = r.random() < 0.5
    idx = r.choice([-1, -1, r.randrange(m * (1 + valid))])
    st = [S("net", 1, [2, 1], ["linear"], 1), S("opt", 1, 1, ms)]
    k = 0
    for g in (False, True):
        for p in (-1, 0, 1, 2, 3):
            k += 1; st.append(S("es", k, p, idx, g))
    for v in seq:
        st.append(S("run", list(range(1, k + 1)), 1, others(r, m, valid, idx, v), valid))
    return st + [S("flags")]

def long(r):
    """several stoppers with long patience and other settings, on different optimizers, in any order"""
    st = [S("net", 1, [2, 3, 1], ["tanh", "linear"], 1), S("net", 2, [1, 2], ["relu"], 2)]
    mm = {}
    for o in (1, 2, 3):
        ms = metrics(r); mm[o] = max(1, len(ms)); st.append(S("opt", o, r.choice([1, 2]), ms, r.randrange(4)))
    live, cfg, nid = [], {}, 0
    base = {o: 0.0 for o in mm}
    for step in range(r.choice([20, 40, 60])):
        x = r.random()
        if (x < 0.12 and len(live) < 6) or not live:
            nid += 1; o = r.choice([1, 2, 3]); valid = r.random() < 0.5
            idx = r.choice([-1, -1, -7, r.randrange(mm[o] * (1 + valid))])
            if r.random() < 0.2: st.append(S("es", nid, default=True)); idx = -1
            else: st.append(S("es", nid, r.choice([0, 1, 2, 3, 5, 10, 17, 100]), idx, r.random() < 0.5))
            live.append(nid); cfg[nid] = (o, idx, valid)
        elif x < 0.16 and len(live) > 1:
            st.append(S("free", live.pop(r.randrange(len(live)))))
        elif x < 0.2: st.append(S("flags"))
        else:
            i = r.choice(live); o, idx, valid = cfg[i]
            if idx < 0 and r.random() < 0.1: valid = not valid      # the validation set may come and go
            for _ in range(r.choice([1, 1, 2, 3, 8, 13])):
                v = r.choice(NUMS) if r.random() < 0.3 else bits(f32(r.uniform(-2, 2)))
                st.append(S("run", [i], o, others(r, mm[o], valid, max(idx, -1), v), valid))
    return st + [S("flags")]

def patient(r):
    """patience of hundreds of epochs, of tens of thousands, without an end"""
    st = [S("net", 1, [1, 1], ["linear"], 1), S("opt", 1, 1, ["mean_squared_error"])]
    v = bits(f32(r.uniform(1, 2))); p = r.choice([126, 127, 128, 254, 255, 256, 257, 300, 1000, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 2 ** 31 - 1, 2 ** 30, -2, -2 ** 31])
    m = min(max(p, 0), 70000); k = r.choice([m - 1, m, m + 1, m + 2]) if p < 2 ** 20 else r.choice([300, 33000, 70000]); k = max(k, 1)
    st.append(S("es", 1, p, -1, r.random() < 0.5))
    for _ in range(r.choice([1, 2])): st.append(S("runs", 1, 1, [v], k))
    st += [S("runs", 1, 1, [bits(f32(r.choice([-100, 100])))], r.choice([1, 2])), S("runs", 1, 1, [v], k), S("runs", 1, 1, [v], 3)]
    return st + [S("flags")]

def training(r):
    st = [S("net", 1, [2, 3, 1], ["tanh", "linear"], r.randrange(99)), S("opt", 1, 1, ["mean_squared_error", "mean_absolute_error"], r.randrange(4)),
          S("es", 1, 0), S("es", 2, 1, 1, True), S("es", 3, 2, 0, False), S("es", 4, default=True)]
    return st + [S("train", [1, 2, 3, 4], 1, r.choice([3, 8]), r.random() < 0.7, r.randrange(1 << 20)) for _ in range(12)]

def run(rep):
    r = random.Random(vf.SEED + 18)
    T = vf.THOROUGH
    beh = vf.behaviours(rep, "CbMC", "CbMC.cfg", "stopping and checkpointing over all score sequences", workers=1)
    if T: rep.model(vf.model_check("CbMC", open(vf.VERIF + "/spec/CbMC.cfg").read().replace("K = 5", "K = 8").replace("V6", "V4").replace(" PrintIt", ""), workers=vf.NCPU, heap="8g"), "the same, longer sequences")
    pick = beh if T else r.sample(beh, 900)
    cs = [enumerated(r, b["seq"]) for b in pick]
    cs += [long(r) for _ in range(600 if T else 60)] + [training(r) for _ in range(100 if T else 16)]
    cs += [patient(r) for _ in range(200 if T else 40)]
    rep.cov.update(behaviours=len(beh), behaviours_replayed=len(pick), histories=len(cs))
    r.shuffle(cs)
    lib = vf.build(); k = 48 if T else 16
    vf.conform(rep, "CbTrace", [dict(name="stop-%d" % i, mod="cb_play", func="play", lib=lib, arg=cs[i::k], key="c18") for i in range(k)])
