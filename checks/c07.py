"""C07: an interrupted network save never damages the previous saved file."""
import errno, random, vf, savefault
from train import S
from nets import ACTS

ERRS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT, errno.EROFS]
def net(r, big=False):
    sizes = r.choice([[40, 60, 3], [64, 50], [200, 30]]) if big else r.choice([[1, 1], [2, 3, 1], [3, 2], [2, 2, 2, 2]])
    return [sizes, [r.choice(ACTS) for _ in sizes[1:]], r.randrange(1 << 20)]

def run(rep):
    r = random.Random(vf.SEED + 7)
    T = vf.THOROUGH
    beh = vf.behaviours(rep, "SaveMC", "SaveMC.cfg", "histories of saves killed or failing at any step", workers=1)
    steps = []
    for old in (True, False):
        for big in (False, True):
            for cb in (0, 1):
                for mode in ("kill", "killafter", "short", "err", "errfrom"):
                    errs = ERRS if mode in ("err", "errfrom") and T else [r.choice(ERRS)]
                    if not T and cb and mode in ("killafter", "short", "errfrom"): continue
                    for err in errs: steps.append([S("every", net(r), net(r, big), old, mode, err, cb)])
    for b in (beh if T else r.sample(beh, 250)):
        h = []
        if b["hist"][0]["old"]: h.append([net(r), {}])
        else: h.append([net(r), {}])
        for x in b["hist"][1:]:
            kw = {} if x["fault"] == "none" else dict(mode=x["fault"], frac=(x["at"] - 1 + r.random()) / b["last"], err=r.choice(ERRS))
            h.append([net(r, r.random() < 0.1), dict(kw, cb=int(r.random() < 0.3))])
        steps.append([S("history", h, r.choice(["n.npz", "a b.npz", "100%.npz", "noext", "%s.npz"]))])
    rep.cov.update(behaviours=len(beh), histories=len(steps))
    lib = vf.build(); exe = savefault.build(lib)
    r.shuffle(steps)
    k = 64 if T else 16
    traces = vf.conform(rep, "SaveTrace", [dict(name="saves-%d" % i, mod="save_play", func="play", lib="-", arg=dict(exe=exe, steps=sum(steps[i::k], [])), key="c07") for i in range(k)])
    ev = [e for _, t in traces for e in t if e["ev"] == "save"]
    rep.cov["saves"] = len(ev)
    for o in ("killed", "returned"): rep.cov["saves_" + o] = sum(e["outcome"] == o for e in ev)
    struck = [e for e in ev if e["mode"] != "none"]
    rep.cov["saves_struck"] = len(struck); rep.cov["struck_keeping_old"] = sum(e["changes"] == 0 for e in struck); rep.cov["struck_with_new"] = sum(e["changes"] == 1 for e in struck)
    if rep.cov["saves_killed"] < 50 or rep.cov["struck_keeping_old"] < 50 or rep.cov["struck_with_new"] < 5:
        raise RuntimeError("the faults do not strike: %s" % rep.cov)
