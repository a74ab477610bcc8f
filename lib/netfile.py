"""Networks and their files."""
import ctypes as C, os, random, struct, zipfile
import npy
from npy import tell
def words(b): return [b[i:i + 4].hex() for i in range(0, len(b) - len(b) % 4, 4)]
def entry(name, raw):
    """independent reading of an archive member, for the specification"""
    import ast
    n = raw[8] + 256 * raw[9]
    d = ast.literal_eval(raw[10:10 + n].decode("latin1"))
    data = raw[10 + n:]
    t, e = d["descr"][1], int(d["descr"][2:])
    return dict(name=name, shape=list(d["shape"]), type=t, elem=e, endian=d["descr"][0], fortran=d["fortran_order"],
                words=words(data) if t == "f" and e == 4 else [], rows=[data[i:i + e].split(b"\0")[0].decode("latin1") for i in range(0, len(data), e)] if t == "S" else [])
class NF:
    def __init__(self, nn, emit):
        self.nn, self.emit, self.L = nn, emit, nn.L
        self.h = {}; self.file = None
    def lib(self, names):
        self.emit(ev="lib", names=names)
    def looks(self, h):
        n = self.nn
        hx = n.params_hex(h)          # (in layer order: biases then weights)
        return dict(sizes=n.shape(h), acts=n.acts(h), p=[hx[i:i + 8] for i in range(0, len(hx), 8)], loss=(self.L.sh_loss_name(h) or b"").decode())
    def create(self, id, sizes, acts, layers=None):
        h = self.nn.create(sizes, acts, layers)
        if layers is not None and layers < 1: sizes = []
        e = dict(ev="create", id=id, want_sizes=sizes, want_acts=["linear" if a is None else a for a in acts], ok=bool(h))
        if h and sum((a + 1) * b for a, b in zip(sizes, sizes[1:])) > 1 << 27:       # (nothing of that size is looked at)
            self.nn.free(h); e.update(sizes=sizes, acts=[], p=[], loss="")
        elif h: self.h[id] = h; self.nn.set_params(h, [0.0] * (self.nn.total(h))); e.update(self.looks(h))
        self.emit(**e)
    def setp(self, id, raw):
        """raw: seed of arbitrary bit patterns"""
        h = self.h[id]; n = self.nn
        r = random.Random(raw)
        for l in range(n.L.sh_n_layers(h)):
            for ptr, k in ((n.L.sh_b(h, l), n.L.sh_lout(h, l)), (n.L.sh_w(h, l), n.L.sh_lout(h, l) * n.L.sh_lin(h, l))):
                b = r.randbytes(4 * k) if raw % 3 == 0 else struct.pack("%df" % k, *[r.uniform(-1, 1) for _ in range(k)])
                C.memmove(ptr, b, 4 * k)
        self.emit(ev="setp", id=id, p=self.looks(h)["p"])
    def save(self, id, fmt, s="", i=0):
        before = set(os.listdir("."))
        for f in before: os.unlink(f)
        f = "".join(fmt).encode(); L = self.L
        if "%s" in fmt: L.sh_save_si(self.h[id], f, s.encode(), i)
        elif "%d" in fmt: L.sh_save_i(self.h[id], f, i)
        else: L.sh_save(self.h[id], f)
        wrote = sorted(os.listdir("."))
        ent = []
        if wrote:
            with zipfile.ZipFile(wrote[0]) as z:
                ent = [entry(x.filename, z.read(x)) for x in z.infolist()]
        self.emit(ev="save", id=id, fmt=fmt, s=s, i=i, wrote=wrote, entries=ent, **self.looks(self.h[id]))
        self.file = wrote[0] if wrote else None
    def archive(self, file, arrays, seed, method=0, names=None):
        r = random.Random(seed); out = []
        with zipfile.ZipFile(file, "w", method) as z:
            for k, a in enumerate(arrays):
                n = a["elem"]
                for d in a["shape"]: n *= d
                if a["type"] == "S":
                    rows = [x.encode("latin1") for x in a["rows"]]
                    data = b"".join(x.ljust(a["elem"], b"\0")[:a["elem"]] for x in rows)
                    data = data[:n].ljust(n, b"\0")
                else:
                    data = struct.pack("<%df" % (n // 4), *[r.uniform(-2, 2) for _ in range(n // 4)]) if a["type"] == "f" and a["elem"] == 4 else r.randbytes(n)
                raw = npy.header(dict(a, seed=0)) + data
                name = names[k] if names else "arr_%d.npy" % k
                z.writestr(name, raw); out.append(entry(name, raw))
        self.emit(ev="archive", file=file, entries=out)
    def usage(self):
        return [self.L.sh_heap(), len(os.listdir("/proc/self/fd")), sum(1 for _ in open("/proc/self/maps"))]
    def load(self, id, file=None):
        file = file or self.file
        n = self.nn
        os_before = self.usage()[1:]
        growth = min(self.L.sh_load_growth(file.encode(), 8) for _ in range(3))
        leak = [growth if growth >= 16 else 0] + [max(0, y - x) for x, y in zip(os_before, self.usage()[1:])]
        if leak[1] < 8: leak[1] = 0        # anything leaked is leaked by each of the 11 loads
        if leak[2] < 8: leak[2] = 0
        h = n.load(file)
        e = dict(ev="load", id=id, file=file, ok=bool(h), leak=leak)
        if h: self.h[id] = h; e.update(self.looks(h))
        self.emit(**e)
        if not h: return
    def preds(self, a, b, seed):
        if a not in self.h or b not in self.h: return
        n = self.nn; r = random.Random(seed)
        xs = [[r.uniform(-1, 1) for _ in range(n.shape(self.h[a])[0])] for _ in range(3)]
        def run(h):
            out = ""
            for x in xs:
                bx = n.buf(len(x), x); o = n.abuf(n.shape(h)[-1]); n.L.neuralnet_predict(h, bx, o); out += o.hex(); bx.free(); o.free()
            return out
        self.emit(ev="preds", a=a, b=b, pa=run(self.h[a]), pb=run(self.h[b]))
    def free(self, id):
        if id in self.h:
            self.nn.free(self.h.pop(id)); self.emit(ev="free", id=id)
    def clean(self):
        for id in list(self.h): self.free(id)
        for f in os.listdir("."): os.unlink(f)

def play(nn, arg, emit):
    d = NF(nn, emit)
    for s in arg:
        if s[0] in ("setp", "save") and s[1][0] not in d.h: continue          # what it needs was refused
        if s[0] == "load" and len(s[1]) < 2 and not d.file: continue
        getattr(d, s[0])(*s[1], **s[2])
