"""Recorded training: networks, data sets, optimizers of the library under test (child side), random histories (parent side)."""
import ctypes as C, random, struct
from vf import fl, fls, f32
from nets import *
from nn import PROGRESS, HOOK, Buf, Vast, addr

METRICS = ["mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy",
           "binary_crossentropy", "binary_accuracy", "categorical_accuracy"]
DEF = dict(lr=0.01, decay=0.0, mom=0.0, nest=False, rho=0.9, b1=0.9, b2=0.999, wd=0.0)

class Diverged(Exception): pass

class TD:
    def __init__(self, nn, emit):
        self.nn, self.emit = nn, emit
        self.h, self.d, self.o = {}, {}, {}
        self.last = {}
        L = nn.L
        self.pcb = PROGRESS(self.progress)
        self.hcb = HOOK(self.hook)
        self.err = None
        self.cur = None
    def net(self, id, sizes, acts, loss, p):
        n = self.nn; h = self.h[id] = n.create(sizes, acts)
        n.set_params(h, p); n.L.neuralnet_set_loss(h, loss.encode())
        # the harness's own dynamically loaded activations are linear
        self.emit(ev="net", id=id, sizes=n.shape(h), acts=["linear" if "@" in (a or "") else a for a in n.acts(h)], loss=loss, p=fls(n.params(h)))
    def wide(self, id, N, keep, sizes, acts, loss, p):
        """N inputs, of which only those in `keep` matter; p: of the network of those inputs"""
        n = self.nn; h = self.h[id] = n.create([N] + sizes, acts); no = sizes[0]
        n.biases(h, 0)[:] = p[:no]
        w = n.weights(h, 0); C.memmove(w, struct.pack("f", 0.25) * (N * no), 4 * N * no)
        for k, i in enumerate(keep): w[i * no:(i + 1) * no] = p[no * (k + 1):no * (k + 2)]
        k = no * (len(keep) + 1)
        for l in range(1, len(sizes)):
            nb, nw = sizes[l], sizes[l - 1] * sizes[l]
            n.set_layer(h, l, p[k:k + nb], p[k + nb:k + nb + nw]); k += nb + nw
        n.L.neuralnet_set_loss(h, loss.encode())
        n.narrow[addr(h)] = (keep, 0.25)
        self.emit(ev="net", id=id, sizes=[len(keep)] + n.shape(h)[1:], acts=n.acts(h), loss=loss, p=fls(n.params(h)))
    def wide_data(self, id, N, keep, xs, ys):
        wx = Vast(len(xs) * N, [(i * N + k, [v]) for i, x in enumerate(xs) for k, v in zip(keep, x)]); wy = self.nn.buf(len(ys) * len(ys[0]), [v for y in ys for v in y])
        self.d[id] = (wx, wy, len(xs), b"", wy.raw(), xs)
        self.emit(ev="data", id=id, x=[fls(x) for x in xs], y=[fls(y) for y in ys])
    def stray(self):
        if self.nn.strayed:
            self.nn.strayed = False
            self.emit(ev="strayed", what="parameters whose gradient is zero have changed")
    def gate(self, lib, parties):
        C.CDLL(lib).gate_set(parties)
    def threads(self, k):
        self.nn.L.sh_omp_threads(k)
    def setp(self, id, p):
        self.nn.set_params(self.h[id], p); self.emit(ev="setp", id=id, p=fls(self.nn.params(self.h[id])))
    def loss(self, id, name):
        self.nn.L.neuralnet_set_loss(self.h[id], name.encode()); self.emit(ev="loss", id=id, loss=name)
    def data(self, id, xs, ys):
        n = self.nn
        if id in self.d:
            for b in self.d[id][:2]: b.free()
        bx = n.buf(len(xs) * len(xs[0]), [v for x in xs for v in x]); by = n.buf(len(ys) * len(ys[0]), [v for y in ys for v in y])
        self.d[id] = (bx, by, len(xs), bx.raw(), by.raw(), xs)
        self.emit(ev="data", id=id, x=[fls(x) for x in xs], y=[fls(y) for y in ys])
    def sparse(self, id, count, at, xs, ys, bx, by):
        """count samples: xs at the positions `at` (from 1), everything else is the blank bx with the target by"""
        n = self.nn
        X, Y = [bx] * count, [by] * count
        for k, x, y in zip(at, xs, ys): X[k - 1], Y[k - 1] = x, y
        wx, wy = n.buf(count * len(bx), [v for x in X for v in x]), n.buf(count * len(by), [v for y in Y for v in y])
        self.d[id] = (wx, wy, count, wx.raw(), wy.raw(), xs)
        self.emit(ev="data", id=id, n=count, at=at, x=[fls(x) for x in xs], y=[fls(y) for y in ys], bx=fls(bx), by=fls(by))
    def vast(self, id, count, at, xs, ys, by):
        """the same, of more numbers than fit an int: the blank is zero, and takes no memory"""
        n = self.nn; k = len(xs[0]); Y = [by] * count
        for i, y in zip(at, ys): Y[i - 1] = y
        wx = Vast(count * k, [((i - 1) * k, x) for i, x in zip(at, xs)]); wy = n.buf(count * len(by), [v for y in Y for v in y])
        self.d[id] = (wx, wy, count, b"", wy.raw(), xs)
        self.emit(ev="data", id=id, n=count, at=at, x=[fls(x) for x in xs], y=[fls(y) for y in ys], bx=fls([0.0] * k), by=fls(by))
    def same(self, id):
        bx, by, _, rx, ry, _ = self.d[id]
        return bx.raw() == rx and by.raw() == ry and bx.damage() + by.damage() == 0
    def opt(self, id, nnid, kind, bs, shuffle=False, metrics=(), progress=True, default=False, **hp):
        n = self.nn; L = n.L; h = self.h[nnid]
        c = dict(DEF); c.update(hp)
        c = {k: (f32(v) if not isinstance(v, bool) else v) for k, v in c.items()}
        m = n.metrics([n.metric(x) for x in metrics]) if metrics else None
        pf = self.pcb if progress else None
        f = C.c_float
        if kind == "probe":
            o = L.sh_probe(h, bs, int(shuffle), pf, m, self.hcb)
        elif default:
            o = L.sh_default_optimizer(h, ["sgd", "adagrad", "rmsprop", "adam"].index(kind), bs, int(shuffle), pf, m)
        elif kind == "sgd":
            o = L.sh_sgd(h, bs, int(shuffle), pf, m, f(c["lr"]), f(c["decay"]), f(c["mom"]), int(c["nest"]))
        elif kind == "adagrad":
            o = L.sh_adagrad(h, bs, int(shuffle), pf, m, f(c["lr"]), f(c["decay"]))
        elif kind == "rmsprop":
            o = L.sh_rmsprop(h, bs, int(shuffle), pf, m, f(c["lr"]), f(c["rho"]), f(c["decay"]), f(c["mom"]), int(c["nest"]))
        else:
            o = L.sh_adam(h, bs, int(shuffle), pf, m, f(c["lr"]), f(c["b1"]), f(c["b2"]), f(c["wd"]))
        o = C.c_void_p(o)
        seen = [(L.get_metric_name(C.c_void_p(L.sh_opt_metric(o, i))) or b"(null)").decode() for i in range(L.sh_opt_n_metrics(o))]
        self.o[id] = dict(o=o, nn=nnid, bs=bs, shuffle=shuffle, progress=progress, kind=kind, nm=len(seen))
        e = {k: (fl(v) if not isinstance(v, bool) else v) for k, v in c.items()}
        self.emit(ev="opt", id=id, nn=nnid, kind=kind, bs=bs, shuffle=bool(shuffle), metrics=list(metrics), seen=seen, **e)
    def tune(self, id, bs, shuffle):
        o = self.o[id]; o["bs"], o["shuffle"] = bs, o["shuffle"] or shuffle
        self.nn.L.sh_opt_tune(o["o"], bs, int(shuffle)); self.emit(ev="tune", id=id, bs=bs, shuffle=bool(shuffle))
    def freeopt(self, id):
        self.nn.L.sh_opt_free(self.o.pop(id)["o"]); self.emit(ev="freeopt", id=id)
    # one epoch -----------------------------------------------------------
    def hint(self, p):
        """rows of the first layer that changed: with one-hot samples, the samples used since the last report"""
        c = self.cur
        h = self.h[c["nn"]]; s = self.nn.shape(h); no = s[1]
        q, c["last"] = c["last"], p
        return [i + 1 for i in range(s[0]) if p[no + i * no: no + (i + 1) * no] != q[no + i * no: no + (i + 1) * no]]
    def progress(self, x, n, fmt):
        try:
            p = self.nn.params(self.h[self.cur["nn"]])
            e = dict(ev="batch", cnt=x, n=n, p=fls(p))
            if self.cur["hint"] and self.cur["nb"]:
                e["hint"] = self.hint(p)
            self.cur["last"] = p
            self.cur["nb"] += 1
            self.emit(**e); self.stray()
        except BaseException as x:
            self.err = x
    def hook(self, o, n, x, y):
        try:
            if self.cur["hook"]: self.cur["hook"](C.c_void_p(o), n, C.c_void_p(x), C.c_void_p(y))
        except BaseException as x:
            self.err = x
    def epoch(self, id, data, valid=0, hint=False, hook=None, novalid=None, whole=False):
        n = self.nn; L = n.L; o = self.o[id]
        bx, by, cnt = self.d[data][:3]
        self.emit(ev="epoch", opt=id, data=data, valid=valid)
        h = self.h[o["nn"]]
        self.cur = dict(nn=o["nn"], hint=hint, nb=0, last=n.params(h), hook=hook)
        want = o["nm"] * (2 if valid else 1)
        res = n.buf(o["nm"] * 2 + 3)
        res.setraw(b"\x5c" * res.size)
        v = self.d[valid] if valid else None
        # three ways of giving no validation set
        nv, vx, vy = (v[2], v[0], v[1]) if v else {None: (0, None, None), "x": (2, None, by), "y": (2, bx, None), "n": (0, bx, by)}[novalid]
        L.sh_run_epoch(o["o"], cnt, bx, by, nv, vx, vy, res)
        if self.err:
            raise self.err
        p = n.params(h)
        guard = res.damage() + sum(b != 0x5c for b in res.raw()[4 * want:])
        e = dict(ev="done" if o["progress"] else "doneblind", p=fls(p), res=fls(res.get(0, want)), guard=guard, dsame=self.same(data) and (not valid or self.same(valid)))
        if o["kind"] == "probe":
            e.update(ev="doneprobe", all=whole)
        elif hint and self.cur["nb"]:
            e["hint"] = self.hint(p)
        self.emit(**e); self.stray()
        if not all(abs(v) < 1e3 for v in p):          # diverging: end this history before anything overflows
            raise Diverged()
        r = res.get(0, want)
        res.free()
        return r
    def together(self, jobs, epochs, omp=1):
        """epochs of several optimizers (id, data, valid) at the same time, each in a thread of its own; recorded one after the other"""
        n = self.nn; T = len(jobs); P = lambda xs: (C.c_void_p * T)(*xs); U = lambda xs: (C.c_uint * T)(*xs)
        os = [self.o[id] for id, _, _ in jobs]
        rs = max(2 * o["nm"] for o in os) + 1
        res = [n.buf(epochs * rs) for _ in jobs]
        for b in res: b.setraw(b"\x5c" * b.size)
        np = [len(n.params(self.h[o["nn"]])) for o in os]
        par = [n.buf(epochs * k) for k in np]
        d = [self.d[j[1]] for j in jobs]; v = [self.d[j[2]] if j[2] else (None, None, 0) for j in jobs]
        adr = lambda b: b.p if b is not None else None
        n.L.sh_concurrent_epochs(T, epochs, P([o["o"].value for o in os]), U([x[2] for x in d]), P([x[0].p for x in d]), P([x[1].p for x in d]),
                                 U([x[2] for x in v]), P([adr(x[0]) for x in v]), P([adr(x[1]) for x in v]), P([b.p for b in res]), rs, P([b.p for b in par]), (C.c_int * T)(*np), omp)
        for (id, data, valid), o, r, p, k in zip(jobs, os, res, par, np):
            want = o["nm"] * (2 if valid else 1)
            for e in range(epochs):
                self.emit(ev="epoch", opt=id, data=data, valid=valid)
                self.emit(ev="doneblind", p=fls(p.get(e * k, k)), res=fls(r.get(e * rs, want)), guard=r.damage() + p.damage() + sum(b != 0x5c for b in r.raw()[4 * (e * rs + want):4 * (e + 1) * rs]),
                          dsame=self.same(data) and (not valid or self.same(valid)))
        for b in res + par: b.free()
    def bgrad(self, o, id, data, i0, dirty=0.0, hint=False, emit=True):
        n = self.nn; L = n.L
        bx, by, cnt = self.d[data][:3]
        h = self.h[self.o[id]["nn"]]
        g = n.abuf(n.total(h))
        if addr(h) in n.narrow: g.setraw(struct.pack("f", dirty) * g.n)
        else: g.set([dirty] * g.n)
        i = C.c_uint(i0)
        before, blk = n.params_hex(h), n.block(h)
        L.sh_batch_gradient(o, cnt, bx, by, C.byref(i), g)
        e = dict(ev="bgrad", i0=i0, i1=i.value, g=fls(n.narrow_grad(h, g.raw()) if addr(h) in n.narrow else g.get()), guard=g.damage(), same=n.params_hex(h) == before and n.block(h) == blk and self.same(data))
        if hint:
            s = n.shape(h); no = s[1]; gg = g.get()
            e["hint"] = [k + 1 for k in range(s[0]) if any(gg[no + k * no: no + (k + 1) * no])]
        g.free()
        self.stray()
        if emit:
            self.emit(**e)
        return e
    def probe(self, id, data, starts, times=1, dirty=0.0, hint=False):
        """inside one epoch of a user-defined optimizer: the gradients of the batches starting at the given samples, each asked
        for several times; only distinct outcomes are recorded"""
        def hook(o, n, x, y):
            for i0 in starts:
                seen = {}
                for k in range(times):
                    e = self.bgrad(o, id, data, i0, dirty, hint, emit=False)
                    seen[str(e)] = e
                for e in seen.values():
                    self.emit(**e)
        o = self.o[id]
        # every batch of the epoch asked for once: every sample must have been in one
        return self.epoch(id, data, hook=hook, whole=times == 1 and o["shuffle"] and list(starts) == list(range(0, self.d[data][2], o["bs"])))
    def evaluate(self, nnid, data, metrics):
        n = self.nn; h = self.h[nnid]
        bx, by, cnt = self.d[data][:3]
        res = n.buf(len(metrics) + 3); res.setraw(b"\x5c" * res.size)
        before, blk = n.params_hex(h), n.block(h)
        n.L.evaluate(h, cnt, bx, by, n.metrics([n.metric(m) for m in metrics]), res)
        self.emit(ev="eval", nn=nnid, data=data, metrics=metrics, res=fls(res.get(0, len(metrics))),
                  guard=res.damage() + sum(b != 0x5c for b in res.raw()[4 * len(metrics):]),
                  same=n.params_hex(h) == before and n.block(h) == blk and self.same(data))
        res.free()
    def reset(self):
        for id in list(self.o):
            self.nn.L.sh_opt_free(self.o.pop(id)["o"])
        for id in list(self.h):
            self.nn.free(self.h.pop(id))
        for id in list(self.d):
            for b in self.d.pop(id)[:2]: b.free()
        self.emit(ev="reset")

# ---------------------------------------------------------------- a small language of histories (parent side), and its player
def play(nn, arg, emit):
    for s in arg:
        if s.get("threads"):
            nn.L.sh_omp_threads(s["threads"])
        if s.get("seed") is not None:
            nn.L.sh_srand(s["seed"])
        d = TD(nn, emit)
        try:
            for st in s["steps"]:
                getattr(d, st[0])(*st[1], **st[2])
        except Diverged:
            pass
        d.reset()

def S(name, *a, **k):
    return [name, a, k]

def rnd_data(r, n, ni, no, loss, onehot=False):
    xs = [[0.0] * ni for _ in range(n)] if onehot else [rnd_vec(r, ni) for _ in range(n)]
    if onehot:
        for i in range(n):
            xs[i][i] = f32(r.choice([1.0, -1.0, 0.5, 2.0]))
    return xs, [rnd_target(r, loss, no) for _ in range(n)]

SMOOTH = ["linear", "sigmoid", "tanh", "softsign", "softplus", "softmax", "relu", "hard_sigmoid"]
def rnd_net(r, id=1, sizes=None, loss=None, acts=None, gain=1.0):
    sizes = sizes or r.choice([[3, 2], [2, 3, 2], [4, 1], [1, 1], [5, 4], [3, 3, 2], [2, 2, 2, 1], [6, 3]])
    acts = acts or [r.choice(SMOOTH) for _ in range(len(sizes) - 1)]
    loss = loss or r.choice(["mean_squared_error"] * 3 + LOSSES)
    return S("net", id, sizes, acts, loss, rnd_params(r, sizes, gain)), sizes, loss

def rnd_hp(r, kind):
    lr = r.choice([0.01, 0.05, 0.1, 0.3, 0.001])
    decay = r.choice([0.0, 0.0, 0.01, 0.1, 0.5])
    mom = r.choice([0.0, 0.5, 0.9, 0.99])
    nest = r.random() < 0.5
    return dict(sgd=dict(lr=lr, decay=decay, mom=mom, nest=nest), adagrad=dict(lr=lr, decay=decay),
                rmsprop=dict(lr=lr, rho=r.choice([0.9, 0.5, 0.99, 0.0]), decay=decay, mom=mom, nest=nest),
                adam=dict(lr=lr, b1=r.choice([0.9, 0.9, 0.5, 0.0, 0.99]), b2=r.choice([0.999, 0.999, 0.9, 0.5]), wd=r.choice([0.0, 0.0, 0.01, 0.3])))[kind]

def rnd_vast(r, ni, cells, id=1, onehot=False):
    """a data set of a little more than `cells` numbers of which a few samples, at the ends and around the border, are not blank"""
    half = cells // ni; n = half + r.choice([2, 3, 9])
    at = sorted({1, half, half + 1, n, r.randint(2, half - 1)})
    xs = [[0.0] * ni for _ in at]
    for k, x in enumerate(xs): x[k] = 10.0; x[r.randrange(16, ni)] = 0.0 if onehot else 4.0
    return [S("net", id, [ni, 1], ["relu"], "mean_squared_error", [-5.0] + [f32(r.uniform(0.9, 1.2)) for _ in range(ni)]),
            S("vast", id, n, at, xs, [[f32(r.choice([1, 2, 3]) + k / 16)] for k in range(len(at))], [0.0])], n

def rnd_wide(r, kind, N, bs=2, n=3, shuffle=False, **hp):
    """a network of very many parameters: N inputs, of which a few are ever different from zero"""
    keep = sorted({0, N - 1} | {r.randrange(N) for _ in range(3)})
    sizes = r.choice([[3], [2, 3], [5, 2]])
    loss = r.choice(LOSSES)
    p = rnd_params(r, [len(keep)] + sizes)
    xs, ys = rnd_data(r, n, len(keep), sizes[-1], loss)
    st = [S("wide", 1, N, keep, sizes, [r.choice(["tanh", "sigmoid", "softsign"]) for _ in sizes], loss, p), S("wide_data", 1, N, keep, xs, ys)]
    if kind == "probe": st += [S("opt", 1, 1, "probe", bs, False, []), S("probe", 1, 1, [0, 2], 1, 1.0)]
    else: st += [S("opt", 1, 1, kind, bs, False, [], True, **dict(rnd_hp(r, kind), **dict(dict(wd=0.0) if kind == "adam" else {}, **hp))), S("epoch", 1, 1, 0), S("epoch", 1, 1, 1)]
    return dict(steps=st, seed=1, threads=r.choice([1, 3, 8]))
