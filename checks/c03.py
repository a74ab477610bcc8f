"""C03: no reader accepts a file cut short at any byte."""
import random, vf
from train import S
from npy import *
from checks.c02 import header

def around(n, *marks):
    ks = set(range(0, 260)) | set(range(max(0, n - 300), n))
    for m in marks: ks |= set(range(max(0, m - 80), m + 80))
    return sorted(k for k in ks if k < n)

def run(rep):
    r = random.Random(vf.SEED + 3)
    rep.model(vf.model_check("NpyMC", "NpyMC.cfg", workers=vf.NCPU), "writer, byte by byte, with a reader at any time")
    T = vf.THOROUGH
    cs = []
    for nd in range(9):
        for _ in range(12 if T else 3):
            cs.append(S("cut_npy", rnd_array(r, nd, cap=300)))
    for t, e in TYPES: cs.append(S("cut_npy", rnd_array(r, 1, type=t, elem=e, cap=200)))
    for n in (3967, 3968, 3969, 8064, 8065, 20000):      # whole pages, and the first byte of the next
        cs.append(S("cut_npy", rnd_array(r, 1, shape=[n], type="u", elem=1), ks=around(n + 128, 4096, 8192)))
    for pad in (0, 1, 50, 120, 200, 300, 4000, 40000, 65400):       # long headers
        a = rnd_array(r, 2, shape=[3, 5], type="f", elem=4, endian="<")
        h = header(a, pad=pad)
        cs.append(S("cut_npy", a, raw=(h + r.randbytes(60)).hex(), ks=None if pad < 400 else around(len(h) + 60, len(h), 4096)))
    for comp in (0, 8):
        for k in range(6 if T else 3):
            cs.append(S("cut_npz", [rnd_array(r, cap=150, shape=rnd_shape(r, r.choice([0, 1, 2]), 20)) for _ in range(k + 1)], comp))
    cs.append(S("cut_npz", [rnd_array(r, 1, shape=[9000], type="u", elem=1)], 0, ks=around(9400, 4096, 8192)))
    cs += [S("cut_net", [2, 3], ["relu"]), S("cut_net", [1, 1], ["linear"]), S("cut_net", [4, 3, 2], ["tanh", "softmax"]), S("cut_net", [3, 2, 2, 1], ["sigmoid", "hard_sigmoid", "relu"])]
    if T: cs += [S("cut_net", [20, 30, 10], ["tanh", "softmax"])]
    r.shuffle(cs)
    lib = vf.build()
    k = 16
    jobs = [dict(name="cuts-%d" % i, mod="npy_play", func="play", lib=lib, arg=cs[i::k], key="c03") for i in range(k)]
    tr = vf.conform(rep, "NpyTrace", jobs)
    rep.cov["files"] = len(cs)
    rep.cov["truncations"] = sum(e.get("tried", 0) for _, t in tr for e in t)
