"""Lives of callbacks, recorded."""
import ctypes as C, io, os, random, re, struct, time, zipfile
from netfile import entry, words
from vf import bits, f32
from nn import PROGRESS

def line(raw):
    """what a line of a log says"""
    d = dict(raw=raw[:300], isline=False, time=0, epoch=[], names=[], vals=[])
    m = re.match(r"\[(\d\d):(\d\d):(\d\d)\]\s+Epoch\s+(-?\d+)((?:\s+[^\s:]+:\s+\S+)*)\s*$", raw)
    if m:
        d.update(isline=True, time=int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3]), epoch=[int(m[4])])
        for n, v in re.findall(r"([^\s:]+):\s+(\S+)", m[5]):
            try: v = bits(float(v))
            except OverflowError: v = bits(float("inf") if float(v) > 0 else float("-inf"))
            except ValueError: d["isline"] = False; v = 0
            d["names"].append(n); d["vals"].append(v)
    return d
def fromb(b): return struct.unpack("f", struct.pack("i", b))[0]

class CB:
    def __init__(self, nn, emit):
        self.nn, self.emit, self.L = nn, emit, nn.L
        self.h, self.o, self.c = {}, {}, {}
        self.seen = {}
        self.libc = C.CDLL(None)
        self.quiet = PROGRESS(lambda *a: None)
        self.data = {}
        import sys
        sys.stdout.flush()
        self.outf = os.path.abspath("../stdout-%d" % os.getpid())
        fd = os.open(self.outf, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND, 0o600)
        os.dup2(fd, 1); os.close(fd)
    def p(self, h):
        b = bytes.fromhex(self.nn.params_hex(h)); return words(b)
    def net(self, id, sizes, acts, seed):
        n = self.nn; h = self.h[id] = n.create(sizes, acts); n.L.neuralnet_set_loss(h, b"mean_squared_error")
        r = random.Random(seed); n.set_params(h, [r.uniform(-1, 1) for _ in range(n.total(h))])
        self.emit(ev="net", id=id, sizes=n.shape(h), acts=n.acts(h), p=self.p(h))
    def setp(self, id, seed):
        n = self.nn; h = self.h[id]; r = random.Random(seed); n.set_params(h, [r.uniform(-1, 1) for _ in range(n.total(h))])
        self.emit(ev="setp", id=id, p=self.p(h))
    def opt(self, id, nn, metrics, kind=0):
        m = self.nn.metrics([self.nn.metric(x) for x in metrics]) if metrics else None
        self.o[id] = (C.c_void_p(self.L.sh_default_optimizer(self.h[nn], kind, 2, 1, self.quiet, m)), nn, len(metrics) or 1)
        self.emit(ev="opt", id=id, nn=nn, metrics=metrics or ["mean_squared_error"])
    def freeopt(self, id):
        self.L.sh_opt_free(self.o.pop(id)[0]); self.emit(ev="freeopt", id=id)
    @staticmethod
    def change(p, old, d):
        e = dict(file=p, gone=False, iszip=d.startswith(b"PK"), entries=[], kept=d.startswith(old), added=[])
        if e["iszip"]:
            try:
                with zipfile.ZipFile(io.BytesIO(d)) as z: e["entries"] = [entry(x.filename, z.read(x)) for x in z.infolist()]
            except Exception as x: e["iszip"] = False
        elif e["kept"]:
            new = d[len(old):].decode("latin1")
            e["added"] = [line(x) for x in new.split("\n")[:-1]]
            if not new.endswith("\n"): e["added"].append(dict(line(""), raw=new[-300:]))
        return e
    def together(self, jobs, iters):
        """callbacks (id, optimizer, results per run, valid), each run by a thread of its own, all at the same time"""
        T = len(jobs); P = lambda xs: (C.c_void_p * T)(*xs)
        stride = max(len(r) for j in jobs for r in j[2])
        bufs = [self.nn.buf(iters * stride) for _ in jobs]
        for b, j in zip(bufs, jobs): b.setraw(b"".join(struct.pack("%di" % stride, *(r + [0] * (stride - len(r)))) for r in j[2]))
        raws = [b.raw() for b in bufs]; blk = {o: self.nn.block(self.h[self.o[o][1]]) for _, o, _, _ in jobs}
        flags = [(C.c_int * iters)() for _ in jobs]
        files = [self.c[j[0]][2] for j in jobs]
        touched = (C.c_int * (iters * T))()
        t0 = time.time()
        self.L.sh_concurrent_cbs(T, iters, P([self.c[j[0]][0].value for j in jobs]), P([self.o[j[1]][0].value for j in jobs]), P([b.p for b in bufs]), stride,
                                 (C.c_int * T)(*[int(j[3]) for j in jobs]), (C.c_char_p * T)(*[f.value if f else None for f in files]),
                                 P([C.addressof(f) if self.c[j[0]][1] == "es" else None for f, j in zip(flags, jobs)]), touched)
        t1 = time.time(); a, z = time.localtime(t0 - 1), time.localtime(t1)
        evs = []
        for t, ((id, o, rows, valid), b, raw, fl, fb) in enumerate(zip(jobs, bufs, raws, flags, files)):
            kind = self.c[id][1]; fn = fb.value.decode() if fb else None
            cur = self.seen.get(fn, (0, 0, 0, b""))[3]
            for k in range(iters):
                e = dict(ev="run", id=id, opt=o, res=rows[k], valid=bool(valid), same=b.raw() == raw and self.nn.block(self.h[self.o[o][1]]) == blk[o], changed=[], out=[])
                if kind == "es": e["stop"] = bool(fl[k])
                if kind == "log": e.update(t0=a.tm_hour * 3600 + a.tm_min * 60 + a.tm_sec, t1=z.tm_hour * 3600 + z.tm_min * 60 + z.tm_sec, writable=bool(fb))
                if fn:
                    p = "%s.%d" % (fn, k)
                    d = open(p, "rb").read() if os.path.exists(p) else b""
                    if d != cur or touched[t * iters + k] and d.startswith(b"PK"): e["changed"] = [self.change(fn, cur, d)]
                    cur = d
                    if os.path.exists(p): os.unlink(p)
                evs.append(e)
        for b in bufs: b.free()
        out = self.look()["out"]
        for e in evs: self.emit(**e)
        if out: self.emit(ev="stray", out=out)
    # files ----------------------------------------------------------------
    def look(self):
        """files that were written since the last look, and new stdout"""
        self.libc.fflush(None)
        ch = []
        now = {}
        for root, ds, fs in os.walk("."):
            for f in fs:
                p = os.path.relpath(os.path.join(root, f), ".")
                st = os.stat(p); now[p] = (st.st_ino, st.st_mtime_ns, st.st_size)
        for p in sorted(set(now) | set(self.seen)):
            if p not in now: ch.append(dict(file=p, gone=True, iszip=False, kept=False, added=[], entries=[]))
            elif now[p] != self.seen.get(p, (0, 0, 0, b""))[:3]:
                d = open(p, "rb").read()
                if p in self.seen and len(d) == len(self.seen[p][3]) and d == self.seen[p][3] and now[p][0] == self.seen[p][0] and not d.startswith(b"PK"):
                    now[p] += (d,)
                    continue
                old = self.seen.get(p, (0, 0, 0, b""))[3]
                ch.append(self.change(p, old, d)); now[p] += (d,)
            else: now[p] = self.seen[p]
        self.seen = now
        out = os.stat(self.outf).st_size
        o = []
        if out:
            o = [line(x) for x in open(self.outf, encoding="latin1").read().split("\n")]
            if o and o[-1]["raw"] == "": o.pop()
            os.truncate(self.outf, 0)
        return dict(changed=ch, out=o)
    def old(self, file, lines):
        """lines: texts; those of the form of a log's carry epochs"""
        os.makedirs(os.path.dirname(file) or ".", exist_ok=True)
        open(file, "w").write("".join(x + "\n" for x in lines))
        self.look()
        self.emit(ev="old", file=file, lines=[dict(epoch=line(x)["epoch"]) for x in lines])
    def rm(self, file):
        if os.path.exists(file): os.unlink(file)
        self.look(); self.emit(ev="rm", file=file)
    # callbacks ------------------------------------------------------------
    def es(self, id, patience=10, idx=-1, greater=False, default=False):
        c = self.L.sh_es_default() if default else self.L.sh_es(patience, idx, int(greater))
        self.c[id] = (C.c_void_p(c), "es", None)
        self.emit(ev="new", kind="es", id=id, patience=patience, idx=idx, greater=greater, **self.look())
    def mc(self, id, file="(none)", idx=-1, greater=False, verbose=False, default=False):
        b = C.create_string_buffer(file.encode()) if file != "(none)" else None
        c = self.L.sh_mcp_default() if default else self.L.sh_mcp(b, idx, int(greater), int(verbose))
        self.c[id] = (C.c_void_p(c), "mc", b)
        self.emit(ev="new", kind="mc", id=id, file=file, idx=idx, greater=greater, verbose=verbose, **self.look())
    def log(self, id, file="(none)", start=0, silent=False):
        b = C.create_string_buffer(file.encode()) if file != "(none)" else None
        self.c[id] = (C.c_void_p(self.L.sh_logger(b, start, int(silent))), "log", b)
        self.emit(ev="new", kind="log", id=id, file=file, start=start, silent=silent, **self.look())
    def run(self, ids, opt, res, valid=False):
        """res: bits"""
        n = self.nn; o, nn, m = self.o[opt]
        buf = n.buf(len(res)); buf.setraw(struct.pack("%di" % len(res), *res)); raw = buf.raw()
        for id in ids:
            c, kind, b = self.c[id]
            before = n.block(self.h[nn])
            t0 = time.time()
            self.L.sh_cb_run(c, o, buf, int(valid))
            t1 = time.time()
            e = dict(ev="run", id=id, opt=opt, res=res, valid=bool(valid), same=buf.raw() == raw and n.block(self.h[nn]) == before)
            if kind == "es": e["stop"] = bool(self.L.sh_es_stop(c))
            if kind == "log": 
                a, z = time.localtime(t0 - 1), time.localtime(t1)
                e.update(t0=a.tm_hour * 3600 + a.tm_min * 60 + a.tm_sec, t1=z.tm_hour * 3600 + z.tm_min * 60 + z.tm_sec,
                         writable=bool(b) and os.path.isdir(os.path.dirname(b.value.decode()) or "."))
            e.update(self.look())
            self.emit(**e)
        buf.free()
    def runs(self, id, opt, res, k, valid=False):
        """an early stopper sees the same results k times: after which of them it has asked to stop"""
        n = self.nn; o, nn, m = self.o[opt]; c = self.c[id][0]
        buf = n.buf(len(res)); buf.setraw(struct.pack("%di" % len(res), *res)); raw = buf.raw(); before = n.block(self.h[nn])
        first = self.L.sh_es_runs(c, o, buf, int(valid), k)
        self.emit(ev="runs", id=id, opt=opt, res=res, valid=bool(valid), k=k, first=first, stop=bool(self.L.sh_es_stop(c)), same=buf.raw() == raw and n.block(self.h[nn]) == before, **self.look())
        buf.free()
    def train(self, ids, opt, n, valid, seed):
        """a real epoch, and the callbacks with its results"""
        nn = self.nn; o, k, m = self.o[opt]; h = self.h[k]; s = nn.shape(h)
        r = random.Random(seed)
        b = [nn.buf(c * w, [r.uniform(-1, 1) for _ in range(c * w)]) for c, w in ((n, s[0]), (n, s[-1]), (3, s[0]), (3, s[-1]))]
        res = nn.buf(2 * m)
        self.L.sh_run_epoch(o, n, b[0], b[1], 3 if valid else 0, b[2], b[3], res)
        out = res.get(0, m * (1 + bool(valid)))
        for x in b: x.free()
        res.free()
        self.look()
        self.emit(ev="setp", id=k, p=self.p(h))
        self.run(ids, opt, [bits(x) for x in out], valid)
    def flags(self):
        ids = [i for i in self.c if self.c[i][1] == "es"]
        if ids: self.emit(ev="flags", ids=ids, flags=[bool(self.L.sh_es_stop(self.c[i][0])) for i in ids])
    def free(self, id):
        self.L.sh_cb_free(self.c.pop(id)[0]); self.emit(ev="free", id=id, **self.look())
    def reset(self):
        for id in list(self.c): self.L.sh_cb_free(self.c.pop(id)[0])
        for id in list(self.o): self.L.sh_opt_free(self.o.pop(id)[0])
        for id in list(self.h): self.nn.free(self.h.pop(id))
        for root, ds, fs in os.walk("."):
            for f in fs: os.unlink(os.path.join(root, f))
        self.look(); self.emit(ev="reset")

def play(nn, arg, emit):
    d = CB(nn, emit)
    for steps in arg:
        for s in steps: getattr(d, s[0])(*s[1], **s[2])
        d.reset()
    os.unlink(d.outf)
