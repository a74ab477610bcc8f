"""C10: backpropagation gives the gradient of the current loss, for every topology, activation and loss."""
import random, vf
from nets import *

def scen(nn, arg, emit):
    d = ND(nn, emit)
    for s in arg:
        d.create(1, s["sizes"], s["acts"]); d.setp(1, s["p"])
        d.loss(1, s["loss"])
        for i, (x, t) in enumerate(s["xt"]):
            d.grad(1, x, t, dirty=[None, 1e6, float("nan"), -3.0][i % 4])
        d.predict(1, s["xt"][0][0])
        if s.get("second"):
            # another network in between must not matter, nor an update of this one
            d.create(2, s["second"]["sizes"], s["second"]["acts"]); d.setp(2, s["second"]["p"]); d.loss(2, s["second"]["loss"])
            d.grad(2, *s["second"]["xt"][0])
            d.grad(1, *s["xt"][0], dirty=7.0)
            d.update(1, s["d"])
            d.grad(1, *s["xt"][0])
        d.reset()

def case(r, sizes=None, acts=None, loss=None, nx=2, second=False):
    sizes = sizes or rnd_sizes(r, cap=400)
    acts = acts or rnd_acts(r, sizes)
    loss = loss or r.choice(LOSSES)
    c = dict(sizes=sizes, acts=acts, loss=loss, p=rnd_params(r, sizes), xt=[(rnd_vec(r, sizes[0]), rnd_target(r, loss, sizes[-1])) for _ in range(nx)])
    if second:
        c["second"] = case(r, rnd_sizes(r, cap=80), nx=1)
        c["d"] = rnd_vec(r, nparams(sizes), 0.1)
    return c

def cases(r):
    cs = []
    for loss in LOSSES:
        for a in ACTS:
            cs.append(case(r, [3, 5, r.choice([1, 2, 4, 9])], [r.choice(ACTS), a], loss))
            cs.append(case(r, [2, 3, 4, 2], [r.choice(ACTS), a, r.choice(["sigmoid", "softmax", "linear"])], loss, nx=1))
    for n in list(range(1, 36)) + [47, 48, 49, 63, 64, 65]:
        a = r.choice(ACTS)
        cs.append(case(r, [r.choice([1, 2, 3]), n], [a], nx=1))
        cs.append(case(r, [2, n, r.choice([1, 2, 3])], [r.choice(ACTS), r.choice(ACTS)], nx=1))
        cs.append(case(r, [n, 2], [r.choice(ACTS)], nx=1))
        cs.append(case(r, [2, r.choice([1, 2, 3]), n], [r.choice(ACTS), r.choice(ACTS)], nx=1))
    for _ in range(1500 if vf.THOROUGH else 110):
        cs.append(case(r, second=r.random() < 0.3))
    for n in list(range(1, 36)) + [47, 48, 49, 63, 64, 65]:   # nothing that could hide an error
        a = lambda: r.choice(["linear", "tanh", "softsign"])
        cs.append(case(r, [r.choice([2, 3]), n, r.choice([2, 3])], [a(), a()], "mean_squared_error", nx=1))
        cs.append(case(r, [n, r.choice([2, 9])], ["linear"], "mean_squared_error", nx=1))
    for n in WIDE if vf.THOROUGH else WIDE[:-3]:        # widths far beyond the usual
        a = lambda: r.choice(["linear", "tanh", "softsign"])
        cs.append(case(r, [1, n, 1], [a(), a()], "mean_squared_error", nx=1))
        cs.append(case(r, [n, r.choice([1, 2])], [a()], nx=1))
        cs.append(case(r, [r.choice([1, 2]), n], [a()], nx=1))
    for depth in (3, 4, 5, 6):
        for a in ACTS:
            acts = [r.choice(["linear", "tanh", "sigmoid"]) for _ in range(depth)]; acts[r.randrange(depth)] = a
            cs.append(case(r, [r.choice([2, 3, 4]) for _ in range(depth + 1)], acts, "mean_squared_error", nx=1))
    for _ in range(40 if vf.THOROUGH else 12):          # large inputs
        c = case(r, [3, r.choice([1, 4, 9, 17])], [r.choice(["linear", "relu", "softsign"])], "mean_squared_error")
        c["xt"] = [([v * 10.0 ** r.choice([3, 4, 5, 8]) for v in x], t) for x, t in c["xt"]]
        cs.append(c)
    for _ in range(40 if vf.THOROUGH else 12):          # targets of any sign, and zero
        c = case(r, [2, r.choice([1, 3, 8, 17])], [r.choice(["linear", "tanh", "relu"])], r.choice(["mean_absolute_percentage_error", "mean_absolute_error"]))
        c["xt"] = [(x, rnd_vec(r, len(t), 2.0)) for x, t in c["xt"]]
        cs.append(c)
    for depth in (3, 4, 5, 6, 8):                       # layers that are narrow and wide in any order
        for _ in range(10 if vf.THOROUGH else 3): cs.append(case(r, wide_narrow(r, depth, large=r.choice([9, 17])), nx=1))
    for depth in (17, 31, 32, 33, 64, 65, 100, 128, 129, 200, 257):       # very deep
        sizes, acts, p = rnd_deep(r, depth)
        c = case(r, sizes, acts, "mean_squared_error", nx=1); c["p"] = p; cs.append(c)
    for _ in range(150 if vf.THOROUGH else 30):         # all magnitudes
        c = case(r)
        c["xt"] = [(log_vec(r, len(x)), t) for x, t in c["xt"]]
        if r.random() < 0.25: c["p"] = log_vec(r, nparams(c["sizes"]))
        cs.append(c)
    for _ in range(300 if vf.THOROUGH else 30):         # values that leave single precision on the way
        depth = r.choice([2, 3, 4, 5])
        c = case(r, [r.choice([1, 2, 3, 8]) for _ in range(depth + 1)], [r.choice(["exponential", "exponential", r.choice(ACTS), r.choice(ACTS)]) for _ in range(depth)])
        c["p"] = [f32(v * r.choice([1, 2, 5, 20])) for v in c["p"]]
        cs.append(c)
    for _ in range(40 if vf.THOROUGH else 4):
        cs.append(case(r, rnd_sizes(r, cap=3500, pool=[16, 33, 50, 64, 65]), nx=1))
    r.shuffle(cs)
    return cs

def run(rep):
    r = random.Random(vf.SEED)
    rep.model(vf.model_check("NNMCq", "NNMCt.cfg" if vf.THOROUGH else "NNMC.cfg", workers=vf.NCPU, heap="6g"),
              "the specified gradient is the derivative of the specified loss")
    cs = cases(r)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        n = 16 if vi == 0 else 4
        mine = cs if vi == 0 or vf.THOROUGH else cs[vi::4]
        for k in range(n):
            jobs.append(dict(name="%s-%d" % (v, k), mod="c10", func="scen", lib=lib, arg=mine[k::n], key="c10"))
    vf.conform(rep, "NNTrace", jobs)
    rep.cov["networks"] = sum(len(j["arg"]) for j in jobs)
