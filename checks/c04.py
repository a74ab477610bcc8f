"""C04: archives keep every array, name, order and the asked compression; archives of other tools load completely."""
import random, string, vf
from train import S
from npy import *

def small(r): return rnd_array(r, r.choice([0, 1, 1, 2, 3]), cap=60, endian=r.choice(["", "<"]))
METHODS = [0, 8]

def replay(r, b):
    st = [S("lnew", 1)]
    for h in b["hist"]:
        if h["op"] == "forget": st.append(S("lforget", 1, h["at"]))
        else: st.append(S("lop", 1, h["op"], h["fmt"], "s", h["i"], small(r)))
    plain = r.random() < 0.25
    st += [S("lsave", 1, r.choice(METHODS), 1, plain), S("lfree", 1), S("lload", 2, 1), S("lsave", 2, r.choice(METHODS), 2), S("lload", 3, 2), S("lfree", 2), S("lfree", 3)]
    return st

def rnd_name(r, n=None):
    n = n or r.choice([1, 2, 5, 10, 40, 79, 80])
    k = r.random()
    al = string.ascii_letters + string.digits + "_-. " if k < 0.6 else string.ascii_letters + "%sdnux0/#$&'()[]{}" if k < 0.85 else "abcæøå日本"
    return "".join(r.choice(al) for _ in range(n)) if k < 0.85 else "".join(r.choice(al) for _ in range(min(n, 20)))

def built(r, n, methods, dup=False, f=None):
    st = [S("lnew", 1)]
    used = set()
    for i in range(n):
        x = rnd_name(r).replace("/", "_")
        while x in used and not dup: x = rnd_name(r).replace("/", "_")
        used.add(x)
        k = r.random()
        if k < 0.3: st.append(S("lop", 1, r.choice(["append", "prepend"]), ["%s"], x, 0, small(r)))
        elif k < 0.6: st.append(S("lop", 1, r.choice(["append", "append", "prepend"]), ["w", "%d", ".npy"], "", i * 7 - 3, small(r)))
        elif k < 0.8: st.append(S("lop", 1, r.choice(["append", "prepend"]), ["%s", "_%", "%d"], x[:20], i, small(r)))
        else: st.append(S("lop", 1, r.choice(["append", "prepend"]), ["name", str(i)], "", 0, rnd_array(r)))
    st += [S("lsave", 1, r.choice(methods), 1, r.random() < 0.2), S("lload", 2, 1)]
    # the loaded list is extended and saved again, over the old file
    for i in range(r.choice([0, 1, 2])):
        st.append(S("lop", 2, r.choice(["append", "prepend"]), ["more", "%d"], "", 100 + i, small(r)))
    st += [S("lsave", 2, r.choice(methods), 1), S("lload", 3, 1), S("lfree", 1), S("lfree", 2), S("lfree", 3)]
    return st

def churn(r):
    """many lists after one another, some never saved: nothing of a freed list may matter to the next"""
    st, n = [], 0
    for id in range(1, r.choice([3, 6, 10])):
        st.append(S("lnew", id))
        ops = [r.choice(["append", "prepend"]) for _ in range(r.choice([1, 2, 2, 3, 4, 5]))]
        if r.random() < 0.4: ops = [ops[0]] * (len(ops) - 1) + [r.choice(["append", "prepend"])]
        for i, op in enumerate(ops):
            n += 1
            st.append(S("lop", id, op, ["a", "%d"], "", n, dict(shape=[1], type="u", elem=1, endian="|", fortran=False, seed=n)))
        if r.random() < 0.3: st += [S("lsave", id, r.choice(METHODS), 1), S("lload", 50, 1), S("lfree", 50)]
        st.append(S("lfree", id))
    return st

def foreign(r, n, **kw):
    ent, used = [], set()
    for i in range(n):
        x = rnd_name(r)
        while x in used or not x.strip() or x.endswith("/"): x = rnd_name(r)
        used.add(x)
        a = rnd_array(r, endian=r.choice(["<", ">", "|"]))
        d = data_of(a)
        raw = header(a, pad=r.choice([0, 3, 50, 200])) + d
        k = r.random()
        if k < 0.08: raw = b"just some text, no array"                          # skipped
        elif k < 0.16 and len(d): raw = raw[:-1]                                # an array that is not complete: skipped
        elif k < 0.2: raw = b""
        ent.append([x, raw.hex(), r.choice([0, 8]), len(d)])
    return [S("lforeign", 1, ent, **kw), S("lload", 1, 1), S("lfree", 1)]

def run(rep):
    r = random.Random(vf.SEED + 4)
    T = vf.THOROUGH
    beh = vf.behaviours(rep, "ListMC", "ListMCt.cfg" if T else "ListMC.cfg", "all list operations: what the archive must hold", workers=1)
    cs = [replay(r, b) for b in beh]
    for n in list(range(1, 12)) + [20, 50]:
        for m in METHODS: cs.append(built(r, n, [m]))
        cs.append(built(r, n, METHODS, dup=True))
    for n in (100, 127, 128, 129, 255, 256, 257): cs.append(built(r, n, METHODS))
    for k in range(1500 if T else 150): cs.append(built(r, r.choice([1, 2, 3, 5]), METHODS))
    for k in range(1500 if T else 250):
        cs.append(foreign(r, r.choice([0, 1, 1, 2, 3, 6]), comment=r.choice(["", "", "made by hand"]), stream=r.random() < 0.2, zip64=r.random() < 0.1))
    cs.append(foreign(r, 300))
    big = rnd_array(r, 1, shape=[200000], type="u", elem=1, endian="|")
    for m in METHODS:
        cs.append([S("lnew", 1), S("lop", 1, "append", ["big"], "", 0, big), S("lop", 1, "append", ["small"], "", 0, small(r)), S("lsave", 1, m, 1), S("lload", 2, 1), S("lfree", 1), S("lfree", 2)])
        cs.append([S("lforeign", 1, [["big.npy", (header(big) + data_of(big)).hex(), m, 200000]]), S("lload", 1, 1), S("lfree", 1)])
    for k in range(2000 if T else 300): cs.append(churn(r))
    rep.cov["behaviours_replayed"] = len(beh)
    r.shuffle(cs)
    lib = vf.build()
    k = 16
    jobs = [dict(name="lists-%d" % i, mod="npy_play", func="play", lib=lib, arg=sum(cs[i::k], []), key="c04") for i in range(k)]
    vf.conform(rep, "NpyTrace", jobs)
    rep.cov["histories"] = len(cs)
