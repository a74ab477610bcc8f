"""C05: saving and loading a network preserves it exactly, in the documented file."""
import random, vf
from train import S
from nets import *

def file_name(r):
    return r.choice([(["net.npz"], "", 0), (["a-", "%d", ".npz"], "", r.choice([0, 7, -3, 123456])), (["%s", "-of-", "%d"], "some net", 12),
                     (["deep.name.", "%s", "x", "%d"], "%d%s%n", 1), (["n"], "", 0), (["%s", "%d"], "x" * 100, 5)])

def history(r, sizes=None, acts=None, libs=()):
    sizes = sizes or rnd_sizes(r, cap=4000)
    acts = acts or [r.choice(ACTS + list(libs)) for _ in sizes[1:]]
    st = [S("create", 1, sizes, acts)]
    st.append(S("setp", 1, r.randrange(1 << 20)))
    st += [S("save", 1, *file_name(r)), S("load", 2), S("preds", 1, 2, r.randrange(1 << 20))]
    if r.random() < 0.5:         # the loaded network is changed and saved again, over whatever is there
        st += [S("setp", 2, r.randrange(1 << 20)), S("save", 2, *file_name(r)), S("load", 3), S("preds", 2, 3, 1), S("preds", 1, 2, 1)]
    return st + [S("clean")]

def run(rep):
    r = random.Random(vf.SEED + 5)
    T = vf.THOROUGH
    rep.model(vf.model_check("NetMC", "NetMC.cfg", workers=vf.NCPU), "network files and those one change away")
    so = vf.cc_shared("acts.c", "libacts.so")
    libs = ["%s@%s" % (f, so) for f in ("cube", "half", "bare", "negate_all_of_the_outputs_of_the_layer_in_one_single_call", "relu")]
    cs = [history(r, [2, 3], [a]) for a in ACTS + libs]
    for a in ACTS:
        for b in ACTS: cs.append(history(r, [r.choice(EDGE), r.choice(EDGE), r.choice(EDGE)], [a, b]))
    for n in range(1, 70): cs.append(history(r, [n, 3])); cs.append(history(r, [2, n]))
    for n in (11, 12, 20, 50, 101, 130): cs.append(history(r, [2] * n))          # more than ten layers: names with more digits
    for n in WIDE[1::2]:
        if n < 3000: cs.append(history(r, [n, 1])); cs.append(history(r, [1, n]))
    for k in range(1500 if T else 200): cs.append(history(r, libs=libs if k % 4 == 0 else ()))
    # the activation names anywhere in the archive (numpy writes them where its dictionary has them)
    for k in range(200 if T else 60):
        sizes = rnd_sizes(r, cap=300)
        arrs = []
        for i in range(len(sizes) - 1):
            arrs += [dict(shape=sizes[i:i + 2], type="f", elem=4, endian="<", fortran=False, rows=[]), dict(shape=[sizes[i + 1]], type="f", elem=4, endian="<", fortran=False, rows=[])]
        acts = [r.choice(ACTS + libs + ["", "nosuch", "a b", "@", "x@", "relu@nolib.so"]) for _ in sizes[1:]]
        arrs.insert(r.randrange(len(arrs) + 1), dict(shape=[len(acts)], type="S", elem=max(1, max(map(len, acts)) + r.choice([0, 0, 3])), endian="|", fortran=False, rows=acts))
        cs.append([S("archive", "f.npz", arrs, k, r.choice([0, 8]), ["%s%d" % (r.choice(["weight_", "x", "arr_", "%d%s"]), i) for i in range(len(arrs))]),
                   S("load", 1, "f.npz"), S("save", 1, ["out.npz"]), S("load", 2), S("preds", 1, 2, 1), S("clean")])
    r.shuffle(cs)
    lib = vf.build()
    k = 16
    jobs = [dict(name="nets-%d" % i, mod="net_play", func="play", lib=lib, arg=[S("lib", libs)] + sum(cs[i::k], []), key="c05") for i in range(k)]
    vf.conform(rep, "NetTrace", jobs)
    rep.cov["histories"] = len(cs)
