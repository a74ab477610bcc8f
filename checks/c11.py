"""C11: parameters, updates and gradients share one layout."""
import random, vf
from nets import *

def scen(nn, arg, emit):
    d = ND(nn, emit)
    for s in arg:
        d.create(1, s["sizes"], s["acts"]); d.setp(1, s["p"])
        d.getp(1)
        for u in s["d"]:
            d.update(1, u); d.getp(1)
        if s["large"]:
            d.reset(); continue
        d.loss(1, "mse"); d.grad(1, s["x"], s["t"])
        d.update(1, s["d"][0]); d.predict(1, s["x"]); d.getp(1)
        d.reset()

def case(r, sizes):
    n = nparams(sizes)
    # index coded updates: any misplacement or double application shows
    idx = [float(i + 1) for i in range(n)]
    one = [0.0] * n
    for k in range(3):
        one[r.randrange(n)] = f32(2.0 ** r.randint(-3, 3))
    large = n > 3000
    return dict(large=large, sizes=sizes, acts=rnd_acts(r, sizes, ["tanh", "sigmoid", "relu", "linear"]), p=[float((7 * i) % 64 - 20) / 16 for i in range(n)],
                d=[idx] if large else [idx, [-v for v in idx], rnd_vec(r, n), one, [0.0] * n], x=rnd_vec(r, sizes[0]), t=rnd_vec(r, sizes[-1]))

def run(rep):
    r = random.Random(vf.SEED)
    rep.model(vf.model_check("NNMCq", "NNShape.cfg", workers=4), "every parameter has exactly one index, biases first per layer")
    sh = [[a, b] for a in range(1, 20) for b in range(1, 20) if (a * 19 + b) % (1 if vf.THOROUGH else 4) == 0]
    sh += [rnd_sizes(r, cap=900) for _ in range(400 if vf.THOROUGH else 60)] + [[1] * 6, [1, 65], [65, 1], [33, 17, 31]]
    sh += [[1, 2] * 20, [1] * 66, [2] * 101, [1] * 258]
    # layers of thousands of weights, in numbers that no power of two divides
    sh += [[61, 67], [65, 127], [4099, 1], [2, 2051]] + ([[300, 331], [1021, 67, 5]] if vf.THOROUGH else [])
    cs = [case(r, s) for s in sh]
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        n = 12 if vi == 0 else 4
        mine = cs if vi == 0 or vf.THOROUGH else cs[vi::4]
        for k in range(n):
            jobs.append(dict(name="%s-%d" % (v, k), mod="c11", func="scen", lib=lib, arg=mine[k::n], key="c11"))
    vf.conform(rep, "NNTrace", jobs)
    rep.cov["networks"] = sum(len(j["arg"]) for j in jobs)
