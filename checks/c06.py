"""C06: descriptions and files that are no network are refused; whatever is returned is a consistent network."""
import random, vf
from train import S
from nets import *

def run(rep):
    r = random.Random(vf.SEED + 6)
    T = vf.THOROUGH
    beh = vf.behaviours(rep, "NetMC", "NetMCt.cfg" if T else "NetMC.cfg", "network files and those one or two changes away", workers=1, heap="6g")
    cs = []
    for n, b in enumerate(beh):
        for a in b["arr"]:
            if not a["elem"]: a["elem"] = max(map(len, a["rows"]))
        cs.append([S("archive", "f.npz", b["arr"], n, 8 * (n % 2)), S("load", 1, "f.npz"), S("save", 1, ["again.npz"]) if False else S("clean")])
    if not T:                   # some of those two changes away
        b2 = vf.behaviours(rep, "NetMC", "CONSTANTS Start = {2}\nChanges = 2\nSPECIFICATION Spec\nINVARIANTS OnlyNetworks ItselfFirst Anywhere PrintIt\nCHECK_DEADLOCK FALSE\n",
                           "files two changes away from a network of two layers", workers=1, heap="6g")
        for n, b in enumerate(r.sample(b2, min(len(b2), 1500))):
            for a in b["arr"]:
                if not a["elem"]: a["elem"] = max(map(len, a["rows"]))
            cs.append([S("archive", "f.npz", b["arr"], n, 0), S("load", 1, "f.npz"), S("clean")])
    # descriptions
    for sizes in ([], [3], [0], [-1], [0, 1], [1, 0], [2, -1], [-5, 3], [2, 0, 2], [2, -2, 2], [2, 2, 0], [3, 2, 1, 0], [0, 0, 0], [1, 1], [1, 1, 1, 1, 1], [1, 5, 0, 5, 1], [-2147483648, 1], [1, -2147483648]):
        k = max(0, len(sizes) - 1)
        cs.append([S("create", 1, sizes or [0], ["tanh"] * k), S("clean")])
    for sizes in ([-1, -1], [-3, -4], [-2, -3, -2], [-9, -2, -9, -3], [-1, -1, 5], [5, -1, -1], [5, -3, -3, 4], [-4, -1, 1], [1, -1, -4], [-70, -70],
                  [9, 9, -1], [20, 30, -2], [9, 9, 9, -1, 1], [30, 30, -1, 5], [20, 20, -1, 1], [-1, 3, 40, 20], [40, 40, -1], [40, 40, -40, 1], [60, 60, 1, -16]):
        cs.append([S("create", 1, sizes, ["linear"] * (len(sizes) - 1)), S("clean")])
    # more weights in a layer than an int counts, whatever remains of the product in 31, 32 or 33 bits
    for a, b in [(65536, 65536), (65536, 65537), (65536, 131072), (46341, 46341), (65535, 65537), (1431655766, 3), (2147483647, 2),
                 (1073741825, 4), (1073741824, 2), (641, 6700417), (6700417, 1282), (92682, 92682), (65536, 98304), (131072, 49152)]:
        for sizes in ([a, b], [1, a, b], [a, b, 1], [2, 3, a, b, 2]):
            if max(a, b) <= 131072 or len(sizes) == 2:
                cs.append([S("create", 1, sizes, ["tanh"] * (len(sizes) - 1)), S("clean")])
    for layers in (0, -1, -2, -3, -7, -2147483648):
        for sizes in ([2, 3], [4], [1, 1, 1]):
            cs.append([S("create", 1, sizes, ["tanh"] * 2, layers=layers), S("clean")])
    for n in range(4):
        for i in range(n + 2):
            for bad in (0, -1, -7):
                s = [2] * (n + 2); s[i] = bad
                cs.append([S("create", 1, s, ["relu"] * (n + 1)), S("clean")])
    for name in ["", " ", "Tanh", "tanh ", "relu6", "linear\n", "nosuch", "@", "x@", "@x", "a@b@c", "cos@libnothere.so", "nosuchsymbol@libm.so.6", "%s%n", "s" * 300, "softmax2", "softma", None]:
        for k in range(3):
            acts = ["sigmoid", "tanh", "softplus"]; acts[k] = name
            cs.append([S("create", 1, [2, 3, 4, 5], acts), S("clean")])
    # files that are no archives, and empty ones
    r.shuffle(cs)
    lib = vf.build()
    k = 16
    jobs = [dict(name="files-%d" % i, mod="net_play", func="play", lib=lib, arg=[S("lib", [])] + sum(cs[i::k], []), key="c06") for i in range(k)]
    vf.conform(rep, "NetTrace", jobs)
    rep.cov["archives_enumerated"] = len(beh); rep.cov["cases"] = len(cs)
