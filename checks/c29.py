"""C29: the vector and matrix operations compute their definitions, at every length, on every instruction set."""
import ctypes as C, random, vf
from vf import fls
from nets import *

ELEM = ["accumulate", "accumulate_unaligned", "scale", "divide_by_scalar", "saxpy", "saxpby", "square_elements"]
SYM = {"outer": "vector_vector_outer", "matrix_vector": "matrix_vector_multiply", "vector_matrix": "vector_matrix_multiply"}
def scen(nn, arg, emit):
    L = nn.L
    for c in arg:
        f, n, m = c["f"], c["n"], c["m"]
        if not hasattr(L, SYM.get(f, "vector_" + f)): continue          # (it is not there to be used any more)
        k = {g: C.c_float(v) for g, v in zip("st", c["s"])} if f in ELEM else {}
        bufs = []
        def mk(v, mis=None):
            """aligned if mis is None; else so many bytes beyond an aligned address, or (0) wherever the end of the page makes it"""
            b = nn.abuf(len(v), init=v) if mis is None else nn.buf(len(v), v, align=64 if mis else 4, misalign=mis)
            bufs.append(b); return b
        mis = c["mis"]
        if f in ELEM:
            un = f == "accumulate_unaligned"
            out, x = mk(c["a"], mis if un else None), mk(c["x"], c["mis2"] if un else None)
            args = {"accumulate": (x,), "accumulate_unaligned": (x,), "scale": (k.get("s"),), "divide_by_scalar": (k.get("s"),), "saxpy": (k.get("s"), x),
                    "saxpby": (k.get("s"), x, k.get("t")), "square_elements": (x,)}[f]
            reads = [x]
            before = [b.raw() for b in reads]
            getattr(L, "vector_" + f)(C.c_int(n), out, *args)
        else:
            if f == "outer":
                out, x, y = mk([0.0] * (n * m), mis), mk(c["x"], c["mis2"]), mk(c["s"], mis)
                reads = [x, y]
                before = [b.raw() for b in reads]
                L.vector_vector_outer(C.c_int(n), C.c_int(m), x, y, out)
            elif f == "matrix_vector":
                out, w, x = mk([0.0] * n, mis), mk(c["w"], c["mis2"]), mk(c["x"], mis)
                reads = [w, x]
                before = [b.raw() for b in reads]
                L.matrix_vector_multiply(C.c_int(n), C.c_int(m), w, x, out)
            else:
                out, w, b, x = mk(c["junk"]), mk(c["w"]), mk(c["a"]), mk(c["x"], mis)
                reads = [w, b, x]
                before = [q.raw() for q in reads]
                L.vector_matrix_multiply(C.c_int(n), C.c_int(m), w, b, x, out)
        emit(ev="kern", f=f, n=n, m=m, a=fls(c["a"]), x=fls(c["x"]), s=fls(c["s"]), w=fls(c["w"]), out=fls(out.get()),
             same=[b.raw() for b in reads] == before, guard=sum(b.damage() for b in bufs))
        for b in bufs: b.free()

def some(r, n):
    k = r.random()
    if k < 0.4: return rnd_vec(r, n, 2.0)
    if k < 0.6: return log_vec(r, n, -15, 6)
    if k < 0.7: return log_vec(r, n, -30, 3)
    if k < 0.8: return [f32(r.choice([1, 1, -1, 2, 0.5]) * (1 + r.choice([-1, 1]) * 2 ** -r.randint(3, 20))) for _ in range(n)]      # nearly something
    return [f32(r.choice([0.0, 1.0, -1.0, 1.0, r.uniform(-3, 3)])) for _ in range(n)]

def elem(r, f, n):
    s = [f32(r.choice([r.uniform(-3, 3), r.uniform(-3, 3), 1.0, -1.0, 0.5, 10 ** r.uniform(-6, 6), 1 + 2 ** -r.randint(3, 20), 10 ** r.uniform(-25, -6), 0.0 if f != "divide_by_scalar" else float(r.randint(1, 300))])) or (1.0 if f == "divide_by_scalar" else 0.0) for _ in range(2)]
    return dict(f=f, n=n, m=0, a=some(r, n), x=some(r, n), s=s, w=[], mis=4 * r.randrange(16), mis2=4 * r.randrange(16))

def matrix(r, f, n, m):
    mis = dict(mis=4 * r.randrange(16), mis2=4 * r.randrange(16))
    if f == "outer": return dict(f=f, n=n, m=m, a=[], x=some(r, n), s=some(r, m), w=[], **mis)
    if f == "matrix_vector": return dict(f=f, n=n, m=m, a=[], x=some(r, m), s=[], w=some(r, n * m), **mis)
    return dict(f=f, n=n, m=m, a=some(r, m), x=some(r, n), s=[], w=some(r, n * m), junk=[r.choice([float("nan"), 1e30, 7.0])] * m, **mis)

def run(rep):
    r = random.Random(vf.SEED + 29)
    T = vf.THOROUGH
    base = open(vf.VERIF + "/spec/KernMC.cfg").read()
    for w in ("W16", "W8", "W1"):
        c = base.replace("W16", w)
        rep.model(vf.model_check("KernMC", c if T else c.replace("Max = 70", "Max = 50"), workers=4), "registers %s: every element once" % w)
    if vf.tlc("KernMC", base.replace("SLOPPY = FALSE", "SLOPPY = TRUE"), workers=4).ok: raise vf.TLCError("the control does not fail")
    lens = list(range(1, 140)) + [143, 144, 145, 159, 160, 161, 175, 176, 177] + WIDE
    cs = [elem(r, f, n) for f in ELEM for n in lens for _ in range(4 if T else 1)]
    MAT = ["outer", "matrix_vector", "vector_matrix"]
    for f in MAT:
        for n in list(range(1, 82)) + [95, 96, 97, 111, 112, 113, 127, 128, 129]:
            for _ in range(4 if T else 1):
                cs.append(matrix(r, f, r.choice([1, 2, 3]), n)); cs.append(matrix(r, f, n, r.choice([1, 2, 5])))
        for n in WIDE: cs.append(matrix(r, f, 1, n)); cs.append(matrix(r, f, n, 1))
        for _ in range(300 if T else 40): cs.append(matrix(r, f, r.choice(EDGE), r.choice(EDGE)))
    r.shuffle(cs)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        mine = cs if vi == 0 or T else cs[vi % 3::3]
        k = 12 if vi == 0 else 4
        jobs += [dict(name="%s-%d" % (v, i), mod="c29", func="scen", lib=lib, arg=mine[i::k], key="c29") for i in range(k)]
    vf.conform(rep, "KernTrace", jobs)
    rep.cov["calls"] = sum(len(j["arg"]) for j in jobs)
