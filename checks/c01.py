"""C01: saved arrays are valid NPY files and read back identically, by load and by memory mapping."""
import random, vf
from train import S
from npy import *

def run(rep):
    r = random.Random(vf.SEED + 1)
    rep.model(vf.model_check("NpyMC", "NpyMC.cfg", workers=vf.NCPU), "writer, byte by byte, with a reader at any time")
    cs = []
    T = vf.THOROUGH
    for nd in range(9):
        for t, e in TYPES:
            for fo in (False, True):
                cs.append(S("save", rnd_array(r, nd, type=t, elem=e, fortran=fo)))
    for e in ("", "<", ">", "|"):
        for t, k in TYPES:
            cs.append(S("save", rnd_array(r, 2, type=t, elem=k, endian=e)))
    for _ in range(4000 if T else 500):
        cs.append(S("save", rnd_array(r), old=r.choice([0, 0, 5000])))
    # long dimensions: every possible length of the header dictionary
    for nd in range(1, 9):
        for w in range(1, 20):
            s = [10 ** (w - 1) + (w if w > 2 else 1)] * nd
            s = [min(x, 2 ** 63 - 1) for x in s]; s[r.randrange(nd)] = 0
            cs.append(S("save", rnd_array(r, 1, shape=s)))
    for k in range(0, 60):                             # dictionary lengths around the 64 byte boundaries
        cs.append(S("save", rnd_array(r, 1, shape=[0] + [1] * (k % 8), type="S", elem=10 ** (k // 8) + 1)))
    # data around page boundaries (whole files of n pages), and large ones
    for n in [3967, 3968, 3969, 4095, 4096, 4097, 8064, 65535, 65536, 70000, 1 << 20]:
        cs.append(S("save", rnd_array(r, 1, shape=[n], type="u", elem=1)))
        cs.append(S("save", rnd_array(r, 2, shape=[n // 8, 2], type="f", elem=4)))
    if T:
        for n in range(3900, 4300): cs.append(S("save", rnd_array(r, 1, shape=[n], type="u", elem=1)))
    r.shuffle(cs)
    lib = vf.build()
    k = 16
    jobs = [dict(name="arrays-%d" % i, mod="npy_play", func="play", lib=lib, arg=cs[i::k], key="c01") for i in range(k)]
    jobs += [dict(name="big-%d" % i, mod="npy_play", func="play", lib=lib, arg=[S("bigsave", a, marks_of(a))], key="c01") for i, a in enumerate(BIG if T else BIG[:3])]
    vf.conform(rep, "NpyTrace", jobs)
    rep.cov["arrays"] = len(cs)
