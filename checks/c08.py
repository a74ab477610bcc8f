"""C08: a prediction is the composition of activation(input x weight + bias)."""
import random, vf
from nets import *

def scen(nn, arg, emit):
    d = ND(nn, emit)
    for s in arg:
        d.create(1, s["sizes"], s["acts"])
        d.setp(1, s["p"])
        for i, x in enumerate(s["x"]):
            d.predict(1, x, misalign=s["mis"], repeat=3 if i == 0 else 0)
        d.reset()

def case(r, sizes=None, acts=None, nx=2, gain=1.6, xs=1.0):
    sizes = sizes or rnd_sizes(r)
    return dict(sizes=sizes, acts=acts or rnd_acts(r, sizes), p=rnd_params(r, sizes, gain), x=[rnd_vec(r, sizes[0], xs) for _ in range(nx)],
                mis=r.choice([0, 0, 4, 8, 20, 36]))

def cases(r):
    cs = []
    # every activation at every output width around the SIMD boundaries; input widths likewise
    for n in list(range(1, 41)) + [47, 48, 49, 63, 64, 65, 80]:
        for a in r.sample(ACTS, 9 if vf.THOROUGH else 3):
            cs.append(case(r, [r.choice([1, 2, 3, 5]), n], [a], nx=1))
        cs.append(case(r, [n, r.choice([1, 2, 17])], [r.choice(ACTS)], nx=1))
    # widths far beyond the usual, around powers of two and round numbers
    for n in WIDE:
        cs.append(case(r, [n, r.choice([1, 2])], [r.choice(ACTS)], nx=1))
        cs.append(case(r, [r.choice([1, 2]), n], [r.choice(ACTS)], nx=1))
        cs.append(case(r, [1, n, 1], [r.choice(ACTS), r.choice(ACTS)], nx=1))
    for a in ACTS: cs.append(case(r, [1, r.choice(WIDE)], [a], nx=1))
    for a in ACTS:                                    # deep, single-unit and large inputs
        cs.append(case(r, [3, 1, 1, 4, 2, 1, 3], [a] * 6))
        cs.append(case(r, [4, 33], [a], xs=30.0 if a != "exponential" else 8.0))
    # deep networks whose layers are narrow and wide in any order
    for k in range(16):
        cs.append(case(r, [2] + [3 if k >> i & 1 else r.choice([40, 50, 57, 64, 70]) for i in range(4)] + [1], nx=1))
    for depth in (3, 4, 5, 6, 7, 8, 9, 10, 12, 16):
        for _ in range(8 if vf.THOROUGH else 2): cs.append(case(r, wide_narrow(r, depth), nx=1))
    for depth in (17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300):       # very deep
        sizes, acts, p = rnd_deep(r, depth)
        c = case(r, sizes, acts, nx=1); c["p"] = p; cs.append(c)
    for _ in range(100 if vf.THOROUGH else 15):       # all magnitudes
        c = case(r)
        c["x"] = [log_vec(r, c["sizes"][0]) for _ in c["x"]]
        if r.random() < 0.3: c["p"] = log_vec(r, nparams(c["sizes"]))
        cs.append(c)
    for _ in range(200 if vf.THOROUGH else 20):       # values that leave single precision on the way
        depth = r.choice([2, 3, 4, 5])
        c = case(r, [r.choice([1, 2, 3, 8]) for _ in range(depth + 1)], [r.choice(["exponential", "exponential", r.choice(ACTS), r.choice(ACTS)]) for _ in range(depth)])
        c["p"] = [f32(v * r.choice([1, 2, 5, 20])) for v in c["p"]]
        cs.append(c)
    for _ in range(600 if vf.THOROUGH else 90):
        cs.append(case(r))
    for _ in range(40 if vf.THOROUGH else 4):
        cs.append(case(r, rnd_sizes(r, cap=9000, pool=[1, 16, 50, 63, 64, 65, 70, 100])))
    return cs

def run(rep):
    r = random.Random(vf.SEED)
    rep.model(vf.model_check("NNMCq", "NNShape.cfg", workers=4), "NN layout and forward well-definedness")
    cs = cases(r)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        mine = cs if vi == 0 else [c for i, c in enumerate(cs) if vf.THOROUGH or i % 4 == vi % 4]
        n = 12 if vi == 0 else 4
        for k in range(n):
            jobs.append(dict(name="%s-%d" % (v, k), mod="c08", func="scen", lib=lib, arg=mine[k::n], key="c08"))
    vf.conform(rep, "NNTrace", jobs)
    rep.cov["networks"] = sum(len(j["arg"]) for j in jobs)
