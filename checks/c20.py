"""C20: the log has one complete, consecutively numbered line per epoch."""
import random, vf
from cbgen import *

def old_line(r, x):
    if x["epoch"]:
        n = r.choice([1, 1, 2, 7, 14])
        return "[%02d:%02d:%02d] Epoch %3d %s" % (r.randrange(24), r.randrange(60), r.randrange(60), x["epoch"][0],
                                                  "".join("%s: %.5e " % (r.choice(METRICS), r.uniform(0, 9)) for _ in range(n)))
    return r.choice(["", "started", "# a comment", "val: 12", "Epochs: many", "x" * 254, "x" * 255, "x" * 256, "y" * 600, "%s%n%d", "[12:00:00] training begins"])

def enumerated(r, hist):
    mm = [metrics(r), metrics(r)]
    st = [S("net", 1, [2, 1], ["linear"], 1), S("opt", 1, 1, mm[0]), S("opt", 2, 1, mm[1])]
    for h in hist:
        if h["op"] == "old":
            for f, lines in sorted(h["old"].items()):
                if lines or r.random() < 0.5: st.append(S("old", f, [old_line(r, x) for x in lines]))
        elif h["op"] == "new": st.append(S("log", h["id"], h["file"], h["start"], r.random() < 0.3))
        elif h["op"] == "free": st.append(S("free", h["id"]))
        else:
            o = r.choice([1, 2]); valid = r.random() < 0.5
            m = max(1, len(mm[o - 1]))
            st.append(S("run", [h["id"]], o, [rbits(r) for _ in range(m * (1 + valid))], valid))
    return st

def long(r):
    """many sessions one after another, other loggers meanwhile, logs removed in between, loggers without a file or in a missing folder"""
    mm = {o: metrics(r) for o in (1, 2, 3)}
    st = [S("net", 1, [2, 1], ["linear"], 1)] + [S("opt", o, 1, mm[o], r.randrange(4)) for o in mm]
    files = ["run.log", "logs/run 2.log", "%d%s.log", "l" * 150]
    st.append(S("old", files[1], [old_line(r, dict(epoch=[r.choice([9, 98, 99, 998, 999, 123456, -1])])) for _ in range(r.choice([1, 2, 5]))]))
    live, nid = [], 0
    for step in range(r.choice([15, 40])):
        x = r.random()
        if (x < 0.2 and len(live) < 4) or not live:
            nid += 1; st.append(S("log", nid, r.choice(files + ["(none)", "missing/x.log"]), r.choice([0, 0, 0, 0, 1, 17, 999, -2]), r.random() < 0.5)); live.append(nid)
        elif x < 0.35: st.append(S("free", live.pop(r.randrange(len(live)))))
        elif x < 0.38: st.append(S("rm", r.choice(files)))
        elif x < 0.41: st.append(S("old", r.choice(files), [old_line(r, dict(epoch=r.choice([[], [r.randrange(1200)]]))) for _ in range(r.choice([0, 1, 3]))]))
        else:
            o = r.choice([1, 2, 3]); valid = r.random() < 0.5
            st.append(S("run", r.sample(live, r.randint(1, len(live))), o, [rbits(r) for _ in range(max(1, len(mm[o])) * (1 + valid))], valid))
    return st

def training(r):
    st = [S("net", 1, [2, 3, 1], ["tanh", "linear"], r.randrange(99)), S("opt", 1, 1, metrics(r), r.randrange(4)), S("log", 1, "a.log"), S("log", 2, "b.log", 7, True), S("log", 3)]
    st += [S("train", [1, 2, 3], 1, r.choice([3, 8]), r.random() < 0.7, r.randrange(1 << 20)) for _ in range(4)]
    return st + [S("free", 1), S("log", 4, "a.log")] + [S("train", [4, 2], 1, 3, True, 1) for _ in range(3)]

def run(rep):
    r = random.Random(vf.SEED + 20)
    T = vf.THOROUGH
    cfg = open(vf.VERIF + "/spec/LogMC.cfg").read()
    if T: cfg = cfg.replace("K = 5", "K = 6").replace("S2", "S3").replace("Loggers = 2", "Loggers = 3")
    beh = vf.behaviours(rep, "LogMC", cfg, "lives of loggers over log files", workers=1, heap="6g")
    pick = r.sample(beh, min(len(beh), 20000 if T else 1200))
    cs = [enumerated(r, b["hist"]) for b in pick]
    cs += [long(r) for _ in range(1500 if T else 150)] + [training(r) for _ in range(200 if T else 24)]
    rep.cov.update(behaviours=len(beh), behaviours_replayed=len(pick), histories=len(cs))
    r.shuffle(cs)
    lib = vf.build(); k = 48 if T else 16
    vf.conform(rep, "CbTrace", [dict(name="logs-%d" % i, mod="cb_play", func="play", lib=lib, arg=cs[i::k], key="c20",
                                     env=dict(TZ=["UTC", "XXX-5:30", "YYY+11", "Europe/Oslo"][i % 4])) for i in range(k)])
