"""Scenario helpers for networks: random descriptions (parent side) and recorded calls (child side)."""
import hashlib, math, random
from vf import fl, fls, f32

ACTS = ["softplus", "softsign", "hard_sigmoid", "exponential", "linear", "relu", "softmax", "sigmoid", "tanh"]
LOSSES = ["mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy"]
EDGE = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40]

WIDE = [96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 384, 500, 511, 512, 513, 600, 784, 1000, 1023, 1024, 1025, 1500, 2048, 2049, 4097]

def nparams(sizes):
    return sum((sizes[i] + 1) * sizes[i + 1] for i in range(len(sizes) - 1))

def rnd_sizes(r, nlayers=None, cap=900, pool=EDGE):
    while True:
        k = nlayers or r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])
        s = [r.choice(pool) for _ in range(k + 1)]
        if nparams(s) <= cap:
            return s

def rnd_acts(r, sizes, pool=ACTS):
    return [r.choice(pool) for _ in range(len(sizes) - 1)]

def rnd_vec(r, n, scale=1.0):
    """values around zero; now and then exactly 0, 1 or -1"""
    return [f32(r.uniform(-scale, scale)) if r.random() > 0.1 else r.choice([0.0, 0.0, 1.0, -1.0]) for _ in range(n)]

def log_vec(r, n, lo=-12, hi=0.5):
    """every magnitude, as likely as any other"""
    return [f32(r.choice([-1, 1]) * 10 ** r.uniform(lo, hi)) if r.random() > 0.05 else 0.0 for _ in range(n)]

def rnd_deep(r, depth, ni=None, no=None):
    """sizes, activations and parameters of a network of very many small layers through which numbers pass without fading"""
    sizes = [ni or r.choice([1, 2, 3])] + [r.choice([1, 1, 2, 3]) for _ in range(depth - 1)] + [no or r.choice([1, 2])]
    acts = [r.choice(["linear", "linear", "linear", "softsign", "tanh"] if i % 9 == 0 else ["linear"]) for i in range(depth)]
    p = []
    for a, b in zip(sizes, sizes[1:]):
        p += [f32(r.uniform(-0.1, 0.1)) for _ in range(b)] + [f32((1 if i % b == j % a else 0.1) * r.choice([1, -1]) * r.uniform(0.9, 1.1)) for i in range(a) for j in range(b)]
    return sizes, acts, p

def wide_narrow(r, depth, small=None, large=None):
    """layers that are each either narrow or wide"""
    small, large = small or r.choice([1, 2, 3, 5]), large or r.choice([9, 17, 20, 33])
    return [r.choice([small, large]) for _ in range(depth + 1)]

def rnd_params(r, sizes, gain=1.6):
    out = []
    for i in range(len(sizes) - 1):
        ni, no = sizes[i], sizes[i + 1]
        out += rnd_vec(r, no, 0.7)
        out += rnd_vec(r, ni * no, gain / math.sqrt(ni))
    return out

def rnd_target(r, loss, n):
    if loss == "categorical_crossentropy":
        k = r.randrange(n)
        return [1.0 if i == k else 0.0 for i in range(n)]
    if loss == "binary_crossentropy":
        return [float(r.random() < 0.5) for _ in range(n)]
    if loss == "mean_absolute_percentage_error":
        return [f32(r.uniform(0.1, 2)) for _ in range(n)]
    return rnd_vec(r, n, 1.5)

class ND:
    """records the calls it makes on networks"""
    def __init__(self, nn, emit):
        self.nn, self.emit, self.h = nn, emit, {}
    def dig(self, id):
        return hashlib.md5(self.nn.params_hex(self.h[id]).encode()).hexdigest()[:16]
    def create(self, id, sizes, acts):
        n = self.nn
        h = n.create(sizes, acts)
        # the specification's names for "no name given" is the empty string
        names = [a if a is not None else "" for a in acts]
        if h:
            self.h[id] = h
            self.emit(ev="create", id=id, sizes=sizes, acts=names, ok=True, shape=n.shape(h), names=["linear" if "@" in a else a for a in n.acts(h)], total=n.total(h))
        else:
            self.emit(ev="create", id=id, sizes=sizes, acts=names, ok=False, shape=[], names=[], total=0)
        return h
    def setp(self, id, params):
        self.nn.set_params(self.h[id], params)
        self.emit(ev="setp", id=id, p=fls(self.nn.params(self.h[id])), dig=self.dig(id))
    def getp(self, id):
        n = self.nn; k = nparams(n.shape(self.h[id]))
        b = n.abuf(k)
        n.L.neuralnet_get_parameters(self.h[id], b)
        self.emit(ev="getp", id=id, p=fls(b.get()), guard=b.damage(), dig=self.dig(id)); b.free()
    def update(self, id, d):
        n = self.nn; k = nparams(n.shape(self.h[id]))
        b = n.abuf(k, d); raw = b.raw()
        n.L.neuralnet_update(self.h[id], b)
        self.emit(ev="update", id=id, d=fls(d), p=fls(n.params(self.h[id])), dsame=b.raw() == raw, guard=b.damage(), dig=self.dig(id)); b.free()
    def init(self, id, given=None, seed=None, draws=None):
        """initialize; given: a name per layer, or None for no list; draws: the next 31 numbers of rand()"""
        import ctypes as C
        n = self.nn; h = self.h[id]; k = len(n.shape(h)) - 1
        if seed is not None:
            n.L.sh_srand(seed)
        if draws is not None: n.L.sh_draws((C.c_int * 31)(*draws))
        lst = None if given is None else (C.c_char_p * (k + 1))(*[g.encode() for g in given], None)
        n.L.neuralnet_initialize(h, lst)
        self.emit(ev="init", id=id, none=given is None, given=given or [], seed=-2 if draws is not None else -1 if seed is None else seed, shape=n.shape(h),
                  names=["linear" if "@" in a else a for a in n.acts(h)], loss=n.L.sh_loss_name(h).decode(),
                  b=[fls(n.biases(h, i)) for i in range(k)], w=[fls(n.weights(h, i)) for i in range(k)], dig=self.dig(id))
    def predict(self, id, x, misalign=0, repeat=0):
        n = self.nn; h = self.h[id]
        bi = n.buf(len(x), x, align=64 if misalign else None, misalign=misalign); raw = bi.raw(); blk = n.block(h)
        o = n.abuf(n.shape(h)[-1])
        n.L.neuralnet_predict(h, bi, o)
        y = o.raw()
        self.emit(ev="predict", id=id, x=fls(x), y=fls(o.get()), isame=bi.raw() == raw and n.block(h) == blk, guard=o.damage() + bi.damage(), dig=self.dig(id))
        if repeat:
            same = True
            for k in range(repeat):
                o.set([float(k)] * o.n)
                n.L.neuralnet_predict(h, bi, o)
                same = same and o.raw() == y
            self.emit(ev="repeat", id=id, same=same, isame=bi.raw() == raw and n.block(h) == blk, guard=o.damage() + bi.damage(), dig=self.dig(id))
        bi.free(); o.free()
    # batches, evaluations and threads ----------------------------------------
    def threads(self, k): self.nn.L.sh_omp_threads(k)
    def gate(self, lib, parties):
        import ctypes as C
        C.CDLL(lib).gate_set(parties)
    def rows(self, id, xs, rows, same, guard):
        self.emit(ev="batch", id=id, x=[fls(x) for x in xs], y=[fls(y) for y in rows], isame=same, guard=guard, dig=self.dig(id))
    def batch(self, id, xs, misalign=0, omisalign=0, times=1):
        n = self.nn; h = self.h[id]; s = n.shape(h); no = s[-1]
        bi = n.buf(len(xs) * s[0], [v for x in xs for v in x], align=64 if misalign else None, misalign=misalign); raw, blk = bi.raw(), n.block(h)
        o = n.buf(len(xs) * no, align=64 if omisalign else None, misalign=omisalign)
        seen = set()
        for k in range(times):
            o.set([float("nan")] * o.n)
            n.L.neuralnet_predict_batch(h, len(xs), bi, o)
            key = (o.raw(), o.damage(), bi.damage(), bi.raw() == raw and n.block(h) == blk)
            if key in seen: continue
            seen.add(key)
            self.rows(id, xs, [o.get(i * no, no) for i in range(len(xs))], key[3], key[1] + key[2])
        bi.free(); o.free()
    def vast(self, id, count, at, xs):
        """count samples, zero but for those at the positions `at`"""
        from nn import Vast
        n = self.nn; h = self.h[id]; s = n.shape(h); no = s[-1]
        bi = Vast(count * s[0], [(i * s[0], x) for i, x in zip(at, xs)]); blk = n.block(h)
        o = n.buf(count * no, align=64); o.setraw(b"\xff" * o.size)
        n.L.neuralnet_predict_batch(h, count, bi, o)
        raw = o.raw(); w = 4 * no
        blank = next(i for i in range(count) if i not in at)
        rest = [i for i in range(count) if i not in set(at)]
        b = raw[blank * w:blank * w + w]
        alike = sum(raw[i * w:i * w + w] == b for i in rest) == len(rest)
        self.emit(ev="vast", id=id, n=count, at=at, x=[fls(x) for x in xs], y=[fls(o.get(i * no, no)) for i in at], by=fls(o.get(blank * no, no)),
                  alike=alike, isame=n.block(h) == blk, guard=o.damage(), dig=self.dig(id))
        bi.free(); o.free()
    def evalrows(self, id, xs, times=1):
        """the predictions made inside an evaluation, as its metrics see them"""
        n = self.nn; h = self.h[id]; s = n.shape(h); no = s[-1]
        bi = n.buf(len(xs) * s[0], [v for x in xs for v in x]); bt = n.buf(len(xs) * no, [float(i) for i in range(len(xs)) for _ in range(no)]); raw, blk = bi.raw() + bt.raw(), n.block(h)
        o = n.buf(len(xs) * no)
        seen = set()
        for k in range(times):
            o.set([float("nan")] * o.n)
            once = n.L.sh_evaluate_spy(h, len(xs), bi, bt, o)
            key = (o.raw(), once, bi.raw() + bt.raw() == raw and n.block(h) == blk)
            if key in seen: continue
            seen.add(key)
            self.rows(id, xs, [o.get(i * no, no) for i in range(len(xs))], key[2] and bool(once), bi.damage() + bt.damage())
        for b in (bi, bt, o): b.free()
    def concurrent(self, jobs, iters):
        """jobs: (network, samples, mode) per thread"""
        import ctypes as C
        n = self.nn; T = len(jobs); k = len(jobs[0][1])
        ins, outs, strides, blks = [], [], [], {}
        for id, xs, mode in jobs:
            s = n.shape(self.h[id]); a = n.align // 4
            st = s[-1] if mode else (s[-1] + a - 1) // a * a
            b = n.buf(k * s[0], [v for x in xs for v in x]); ins.append((b, b.raw()))
            o = n.buf(iters * k * st) if mode else n.abuf(iters * k * st)
            o.set([float("nan")] * o.n); outs.append(o); strides.append(st); blks[id] = n.block(self.h[id])
        ptr = lambda xs: (C.c_void_p * T)(*xs)
        n.L.sh_concurrent(T, iters, (C.c_int * T)(*[j[2] for j in jobs]), ptr([self.h[j[0]].value for j in jobs]), k,
                          ptr([b.p for b, _ in ins]), ptr([o.p for o in outs]), (C.c_int * T)(*strides))
        for (id, xs, mode), (b, raw), o, st in zip(jobs, ins, outs, strides):
            no = n.shape(self.h[id])[-1]
            same = b.raw() == raw and n.block(self.h[id]) == blks[id]
            g = o.damage() + b.damage()
            seen = set()
            for it in range(iters):
                rows = [o.get((it * k + i) * st, no) for i in range(k)]
                gaps = [v for i in range(k) for v in o.get((it * k + i) * st + no, st - no)]
                g += sum(v == v for v in gaps)          # nothing between the rows
                key = repr(rows)
                if key in seen and not g: continue
                seen.add(key)
                self.rows(id, xs, rows, same, g)
        for b, _ in ins: b.free()
        for o in outs: o.free()
    def loss(self, id, name):
        n = self.nn; h = self.h[id]
        n.L.neuralnet_set_loss(h, name.encode())
        self.emit(ev="loss", id=id, name=name, r=n.L.sh_loss_name(h).decode(), dig=self.dig(id))
    def grad(self, id, x, t, dirty=None):
        n = self.nn; h = self.h[id]
        bi, bt, g = n.buf(len(x), x), n.buf(len(t), t), n.abuf(nparams(n.shape(h)))
        if dirty is not None:
            g.set([dirty] * g.n)
        rx, rt, blk = bi.raw(), bt.raw(), n.block(h)
        n.L.neuralnet_backpropagation(h, bi, bt, g)
        self.emit(ev="grad", id=id, x=fls(x), t=fls(t), g=fls(g.get()), isame=bi.raw() == rx and bt.raw() == rt and n.block(h) == blk,
                  guard=bi.damage() + bt.damage() + g.damage(), dig=self.dig(id))
        for b in (bi, bt, g):
            b.free()
    def saveload(self, id, id2, fn):
        n = self.nn
        n.L.sh_save(self.h[id], fn.encode())
        self.load(id, id2, fn)
    def load(self, id, id2, fn):
        n = self.nn
        h = n.load(fn)
        if h:
            self.h[id2] = h
            self.emit(ev="load", of=id, id=id2, ok=True, shape=n.shape(h), names=n.acts(h), dig=self.dig(id2), ofdig=self.dig(id))
        else:
            self.emit(ev="load", of=id, id=id2, ok=False, shape=[], names=[], dig="", ofdig=self.dig(id))
        return h
    def free(self, id):
        self.nn.free(self.h.pop(id)); self.emit(ev="free", id=id)
    def reset(self):
        for id in list(self.h):
            self.nn.free(self.h.pop(id))
        self.emit(ev="reset")
