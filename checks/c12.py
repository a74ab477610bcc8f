"""C12: the loss in force is the last one set. Every behaviour of NNSel (all selection sequences) is replayed."""
import random, vf
from nets import *

def scen(nn, arg, emit):
    d = ND(nn, emit)
    for k, b in enumerate(arg):
        d.create(1, b["sizes"], b["acts"]); d.setp(1, b["p"])
        for i, name in enumerate(b["hist"]):
            d.loss(1, name)
            if nn.L.sh_loss_name(d.h[1]):
                d.grad(1, b["x"], b["t"])
            if (i + k) % 3 == 0:
                d.predict(1, b["x"])
        d.reset()

def decorate(r, acts, hist, sizes=(3, 4, 3)):
    sizes = list(sizes)
    return dict(sizes=sizes, acts=acts, hist=hist, p=rnd_params(r, sizes), x=rnd_vec(r, sizes[0]),
                t=[f32(r.uniform(0.1, 0.9)) for _ in range(sizes[-1])])

def run(rep):
    r = random.Random(vf.SEED)
    beh = vf.behaviours(rep, "NNSel", "NNSel.cfg", "loss selections: all sequences of 3")
    cs = [decorate(r, b["acts"], b["hist"]) for b in beh]
    rep.cov["behaviours_replayed"] = len(cs)
    NAMES = LOSSES + ["mse", "mae", "mape", "nonsense", "", "MSE"]
    for _ in range(2000 if vf.THOROUGH else 150):          # long random histories on other shapes
        s = rnd_sizes(r, cap=120, pool=[1, 2, 3, 5, 8, 17])
        cs.append(decorate(r, rnd_acts(r, s, ["sigmoid", "softmax", "tanh", "linear", "softplus"]), [r.choice(NAMES) for _ in range(r.randint(4, 9))], s))
    r.shuffle(cs)
    lib = vf.build()
    jobs = [dict(name="sel-%d" % k, mod="c12", func="scen", lib=lib, arg=cs[k::16], key="c12") for k in range(16)]
    vf.conform(rep, "NNTrace", jobs)
