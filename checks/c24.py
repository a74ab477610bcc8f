"""C24: initialization follows the named scheme and touches every parameter."""
import random, vf
from train import S
from nets import *

def scen(nn, arg, emit):
    d = ND(nn, emit); keys = set()
    for steps in arg:
        for s in steps:
            getattr(d, s[0])(*s[1], **s[2])
            if s[0] == "init":
                h = d.h[s[1][0]]; sh = nn.shape(h); a = nn.acts(h); g = s[1][1] if len(s[1]) > 1 else None
                keys |= {(g[i] if g else "", "linear" if "@" in a[i] else a[i], sh[i], sh[i + 1]) for i in range(len(a))}
        if steps[-1][0] == "free": emit(ev="tally", keys=len(keys)) if keys else None; keys.clear()
        d.reset()

GIVEN = ["", "xavier", "kaiming", "he", "Xavier", "xavier "]
def life(r, sizes, acts, lists, k, lib, sizes2=None):
    """a network initialized k times between other calls, in part from a seed"""
    acts = [lib if a == "dynamic" else a for a in acts]
    st = [S("create", 1, sizes, acts), S("setp", 1, rnd_params(r, sizes, 3.0))]
    loss = r.choice(LOSSES + ["mse", None])
    if loss: st.append(S("loss", 1, loss))
    seeds = []
    for j in range(k):
        given = r.choice(lists)
        if j == 0 or r.random() < 0.4: seed = r.randrange(1 << 30); seeds.append((given, seed))
        elif r.random() < 0.3 and seeds: given, seed = r.choice(seeds)
        else: seed = None
        if seed is not None and r.random() < 0.5:            # whatever was drawn before the seed was set
            st.append(S("create", 2, [1, 3], ["relu"])); st.append(S("init", 2)); st.append(S("free", 2))
        st.append(S("init", 1, given, seed))
        c = r.random()
        if c < 0.2: st.append(S("getp", 1))
        elif c < 0.35: st.append(S("predict", 1, rnd_vec(r, sizes[0])))
        elif c < 0.5 and loss: st.append(S("grad", 1, rnd_vec(r, sizes[0]), rnd_target(r, loss, sizes[-1])))
        elif c < 0.6: st.append(S("update", 1, rnd_vec(r, nparams(sizes))))
    return st

def run(rep):
    r = random.Random(vf.SEED + 24)
    T = vf.THOROUGH
    beh = vf.behaviours(rep, "InitMC", "InitMC.cfg", "initializers x activations: the scheme of every layer", workers=4)
    lib = "gate@" + vf.cc_shared("gate.c", "gate.so", ["-pthread"])      # computes the identity
    so = vf.build()
    dyn = lambda a: lib if "@" in a else a
    jobs = []
    # all behaviours, grouped so that the same choice is drawn often enough to be judged
    beh.sort(key=lambda b: (b["acts"][0], json_key(b)))
    n = 20
    for k in range(n):
        mine = beh[k * len(beh) // n:(k + 1) * len(beh) // n]
        st = []
        for j, b in enumerate(mine):
            st.append(S("create", 1, [5, 8, 6], [dyn(a) for a in b["acts"]]))
            if j % 7 == 0: st.append(S("setp", 1, rnd_params(r, [5, 8, 6])))
            st.append(S("init", 1, b["list"] or None, None if j % 5 else j + 100 * k)); st.append(S("free", 1))
        jobs.append(dict(name="choices-%d" % k, mod="c24", func="scen", lib=so, arg=[st], key="c24"))
    # shapes
    cs = []
    shapes = [[1, 1], [1, 7], [7, 1], [2, 2], [3, 3], [1, 1, 1], [4, 4, 4], [16, 16], [17, 9], [33, 2, 5], [8, 8, 8, 8], [2, 60], [60, 2], [3, 5, 3, 5, 2]]
    for s in shapes * (6 if T else 1) + [rnd_sizes(r, cap=300) for _ in range(300 if T else 40)]:
        L = len(s) - 1
        lists = [None] + [[r.choice(GIVEN) for _ in range(L)] for _ in range(3)]
        tot = 12 if T else 8
        cs.append(life(r, s, [r.choice(ACTS + ["dynamic"]) for _ in range(L)], lists, tot, lib) + [S("free", 1)])
    for k in range(20): jobs.append(dict(name="shapes-%d" % k, mod="c24", func="scen", lib=so, arg=cs[k::20], key="c24"))
    # many draws of the same scheme
    big = [([100, 60], ["sigmoid"], [None]), ([100, 60], ["relu"], [None]), ([60, 100], ["linear"], [None]), ([40, 40, 40], ["tanh", "softplus"], [None]),
           ([80, 30], ["relu"], [["xavier"]]), ([30, 80], ["tanh"], [["kaiming"]]), ([12, 25], ["exponential"], [["xavier"], ["kaiming"]]), ([2, 3], ["softsign"], [None, ["kaiming"]])]
    for k, (s, a, lists) in enumerate(big):
        times = min(60, (400000 if T else 40000) // nparams(s))
        jobs.append(dict(name="draws-%d" % k, mod="c24", func="scen", lib=so, arg=[life(r, s, a, lists, times, lib) + [S("free", 1)]], key="c24"))
    # whatever rand() returns
    dr = []
    Z = 1 << 30; M = (1 << 31) - 1                         # the middle of the range and its end
    def mid(): return Z + r.choice([0, 0, 1, -1, 20, -31])
    def far(): return r.choice([r.randrange(M), r.randrange(M), 0, M])
    for k in range(60 if T else 30):
        d = [far() for _ in range(31)]
        for i in range(0, 30, 2):
            if r.random() < 0.4 or i == k % 16 & ~1: d[i], d[i + 1] = mid(), mid()       # both in the middle at once
        if k % 3 == 0: d = [r.randrange(M)] + d[:30]
        s, a = r.choice([([1, 1], ["relu"]), ([2, 3], ["linear"]), ([1, 1, 1], ["softplus", "relu"]), ([3, 4], ["tanh"]), ([2, 2, 2], ["relu", "sigmoid"]), ([1, 2, 3], ["exponential", "relu"])])
        dr.append([S("create", 1, s, a), S("init", 1, None, None, draws=d), S("getp", 1), S("free", 1)])
    jobs.append(dict(name="any", mod="c24", func="scen", lib=so, arg=dr, key="c24"))
    for v in list(vf.variants())[1:]:
        jobs.append(dict(name="v-" + v, mod="c24", func="scen", lib=vf.build(v), arg=cs[::6] + dr[::6] + [life(r, [30, 20, 10], ["tanh", "relu"], [None, ["kaiming", "xavier"]], 12, lib) + [S("free", 1)]], key="c24"))
    vf.conform(rep, "InitTrace", jobs)
    rep.cov["initializations"] = sum(1 for j in jobs for c in j["arg"] for s in c if s[0] == "init")

def json_key(b):
    import json
    return json.dumps(b, sort_keys=True)
