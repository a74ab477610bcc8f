"""Arrays and archives: the library's view (child side), independent views of the files, random arrays (parent side)."""
import ctypes as C, hashlib, mmap, os, random, struct, threading, zipfile
LIMIT = 400
def tell(b):
    return bytes(b).hex() if len(b) <= LIMIT else "%d:%s" % (len(b), hashlib.sha1(b).hexdigest())
def file_of(raw, dlen=None):
    """a file for the specification: head, length, what follows the header (dlen bytes of it)"""
    if len(raw) < 10: return dict(head=list(raw), len=len(raw), data="", dlen="0")
    n = 10 + raw[8] + 256 * raw[9]
    rest = raw[n:]
    if dlen == "?": return dict(head=list(raw[:n]), len=len(raw), data="", dlen="?")      # (of whatever length)
    if dlen is not None: rest = rest[:dlen]
    return dict(head=list(raw[:n]), len=len(raw), data=tell(rest), dlen=str(len(rest)))
def desc(a):
    return dict(shape=[str(d) for d in a["shape"]], type=ord(a["type"]), elem=str(a["elem"]), endian=ord(a["endian"]) if a["endian"] else 0, fortran=a["fortran"])
def size_of(a):
    n = a["elem"]
    for d in a["shape"]: n *= d
    return n
def data_of(a):
    return random.Random(a["seed"]).randbytes(size_of(a))
def header(a, text=None, pad=0, minor=0, endian=None):
    """as another program may write it"""
    t = (text or "{'descr': '%s%s%d', 'fortran_order': %s, 'shape': %s, }" % (endian or a["endian"] or "<", a["type"], a["elem"], a["fortran"], tuple(a["shape"]))).encode()
    t += b" " * pad + b"\n"
    return b"\x93NUMPY" + bytes([1, minor]) + struct.pack("<H", len(t)) + t

class ND:
    def __init__(self, nn, emit):
        self.nn, self.emit, self.L = nn, emit, nn.L
        self.lists, self.files, self.nf = {}, {}, 0
    def make(self, a, own=False):
        """(a's data is allocated by the C library if it is to be freed with the array)"""
        L = self.L
        b = data_of(a)
        if own:
            p = C.CDLL(None).malloc; p.restype = C.c_void_p
            d = p(C.c_size_t(max(1, len(b))))
            C.memmove(d, b, len(b))
            keep = None
        else:
            keep = C.create_string_buffer(b, max(1, len(b))); d = C.addressof(keep)
        s = (C.c_uint64 * 8)(*a["shape"], *([0] * (8 - len(a["shape"]))))
        p = L.sh_npy_new(C.c_void_p(d), len(a["shape"]), s, ord(a["endian"]) if a["endian"] else 0, ord(a["type"]), C.c_uint64(a["elem"]), int(a["fortran"]))
        return C.c_void_p(p), keep, b
    def view(self, p):
        L = self.L
        n = L.sh_npy_size(p)
        return dict(shape=[str(L.sh_npy_shape(p, i)) for i in range(L.sh_npy_ndim(p))], type=L.sh_npy_type(p) & 255, elem=str(L.sh_npy_elem(p)),
                    endian=L.sh_npy_endian(p) & 255, fortran=bool(L.sh_npy_fortran(p))), tell((C.c_char * n).from_address(L.sh_npy_data(p)) if n > 1 << 30 else C.string_at(L.sh_npy_data(p), n) if n else b""), n
    def read(self, fn, how):
        L = self.L
        p = (L.npy_array_load if how == "load" else L.npy_array_mmap)(fn.encode())
        if not p: return dict(ok=False)
        p = C.c_void_p(p)
        a, d, n = self.view(p)
        L.npy_array_free(p)
        return dict(ok=True, a=a, data=d, size=str(n))
    # ---- single arrays
    def save(self, a, fn="a.npy", old=0):
        if old:                                   # an existing, longer file
            open(fn, "wb").write(b"x" * old)
        p, keep, b = self.make(a)
        self.L.npy_array_save(fn.encode(), p)
        C.CDLL(None).free(p)
        raw = open(fn, "rb").read()
        f = file_of(raw)
        self.emit(ev="save", a=desc(a), data=tell(b), file=f)
        self.emit(ev="read", file=f, load=self.read(fn, "load"), map=self.read(fn, "map"))
        os.unlink(fn)
    def foreign(self, raw, dlen=None):
        raw = bytes.fromhex(raw)
        fn = "f.npy"
        open(fn, "wb").write(raw)
        self.emit(ev="read", file=file_of(raw, dlen), load=self.read(fn, "load"), map=self.read(fn, "map"))
        os.unlink(fn)
    # ---- arrays of gigabytes, mostly zero
    def bigdata(self, a, marks):
        n = size_of(a)
        mm = mmap.mmap(-1, n); buf = (C.c_char * n).from_buffer(mm)
        for k in marks: mm[k] = 1 + k % 250
        return mm, buf, n
    def bigsave(self, a, marks):
        L = self.L
        mm, buf, n = self.bigdata(a, marks)
        s = (C.c_uint64 * 8)(*a["shape"], *([0] * (8 - len(a["shape"]))))
        p = C.c_void_p(L.sh_npy_new(C.c_void_p(C.addressof(buf)), len(a["shape"]), s, ord(a["endian"]) if a["endian"] else 0, ord(a["type"]), C.c_uint64(a["elem"]), int(a["fortran"])))
        os.mkfifo("big")
        got = {}
        def reader():
            head, h, k = b"", hashlib.sha1(), 0
            with open("big", "rb", buffering=0) as f:
                while True:
                    b = f.read(1 << 20)
                    if not b: break
                    k += len(b)
                    if len(head) < 10 or len(head) < 10 + head[8] + 256 * head[9]:
                        head += b; m = 10 + (head[8] + 256 * head[9] if len(head) >= 10 else 0)
                        b, head = (head[m:], head[:m]) if len(head) >= max(m, 10) else (b"", head)
                    h.update(b)
            got.update(head=list(head), len=0, biglen=str(k), data="%d:%s" % (k - len(head), h.hexdigest()))
        t = threading.Thread(target=reader); t.start()
        L.npy_array_save(b"big", p)
        t.join(); os.unlink("big")
        C.CDLL(None).free(p)
        got["len"] = min(int(got["biglen"]), 2 * 10 ** 9)
        self.emit(ev="save", a=desc(a), data=tell(buf), file=got)
        del buf; mm.close()
    def bigforeign(self, a, marks, how, cut=0):
        """an array of another program in a file with holes"""
        h, n = header(a), size_of(a)
        with open("big.npy", "wb") as f:
            f.write(h); f.truncate(len(h) + n - cut)
            for k in marks:
                if k < n - cut: f.seek(len(h) + k); f.write(bytes([1 + k % 250]))
        with open("big.npy", "rb") as f, mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ) as mm:
            v = memoryview(mm); d = v[len(h):]
            x = dict(head=list(h), len=min(len(mm), 2 * 10 ** 9), biglen=str(len(mm)), data=tell(d), dlen=str(len(d)))
            d.release(); v.release()
        self.emit(ev="read", file=x, **{k: self.read("big.npy", k) for k in how})
        os.unlink("big.npy")
    # ---- truncation
    def usage(self):
        return [self.L.sh_heap(), len(os.listdir("/proc/self/fd")), sum(1 for _ in open("/proc/self/maps"))]
    def accepts(self, fn, reader):
        L = self.L
        if reader == "network":
            p = L.neuralnet_load(fn.encode())
            if p: L.neuralnet_free(C.c_void_p(p))
        elif reader == "archive":
            p = L.npy_array_list_load(fn.encode())
            if p: L.npy_array_list_free(C.c_void_p(p))
        else:
            p = (L.npy_array_load if reader == "load" else L.npy_array_mmap)(fn.encode())
            if p: L.npy_array_free(C.c_void_p(p))
        return bool(p)
    def cuts(self, fn, readers, ks):
        raw = open(fn, "rb").read()
        ks = [k for k in (ks or range(len(raw))) if k < len(raw)]
        kind = "npy" if readers[0] in ("load", "map") else "zip"
        for rd in readers:
            acc, leak = [], None
            for rnd in range(4):                  # the first round warms up; a leak shows in all the others
                fd = os.open("cut", os.O_CREAT | os.O_RDWR | os.O_TRUNC)
                os.write(fd, raw)
                before = self.usage()
                for k in reversed(ks):
                    os.ftruncate(fd, k)
                    if self.accepts("cut", rd): acc.append(k)
                d = [max(0, y - x) for x, y in zip(before, self.usage())]
                if rnd: leak = d if leak is None else [min(x, y) for x, y in zip(leak, d)]
                os.close(fd); os.unlink("cut")
            f = file_of(raw) if kind == "npy" else dict(len=len(raw))
            self.emit(ev="cuts", file=dict(f, kind=kind), reader=rd, tried=len(ks), accepted=sorted(set(acc)), whole=self.accepts(fn, rd), leak=leak)
    def cut_npy(self, a, ks=None, raw=None):
        if raw is None:
            p, keep, b = self.make(a)
            self.L.npy_array_save(b"t.npy", p); C.CDLL(None).free(p)
        else:
            open("t.npy", "wb").write(bytes.fromhex(raw))
        self.cuts("t.npy", ["load", "map"], ks)
    def cut_npz(self, arrays, comp, ks=None):
        L = self.L
        h = None; keep = []
        for i, a in enumerate(arrays):
            p, _, _ = self.make(a, own=True)
            h = C.c_void_p(L.sh_append(h, p, b"a%d.npy" % i))
        L.sh_save_comp(b"t.npz", h, comp, 0)
        L.npy_array_list_free(h)
        self.cuts("t.npz", ["archive"], ks)
    def cut_net(self, sizes, acts, ks=None):
        n = self.nn
        h = n.create(sizes, acts)
        n.L.sh_srand(5); n.L.neuralnet_initialize(h, None)
        n.L.sh_save(h, b"n.npz")
        n.free(h)
        self.cuts("n.npz", ["network"], ks)
    # ---- lists
    def names(self, h):
        out = []
        while h:
            out.append((self.L.sh_lname(h) or b"(none)").decode("utf8", "backslashreplace"))
            h = self.L.sh_lnext(h); h = C.c_void_p(h) if h else None
        return out
    def lnew(self, id):
        self.lists[id] = None; self.emit(ev="lnew", id=id)
    def lop(self, id, op, fmt, s, i, a):
        L = self.L
        p, _, b = self.make(a, own=True)
        f = "".join(t.replace("%", "%%") if t not in ("%s", "%d") else t for t in fmt)
        fn = getattr(L, "sh_%s_si" % op) if "%d" in fmt or "%s" in fmt else getattr(L, "sh_" + op)
        # %s must come before %d in fmt (the variadic order of the shim)
        if "%d" in fmt or "%s" in fmt:
            if "%s" not in fmt: f = "%.0s" + f
            h = fn(self.lists[id], p, f.encode(), s.encode(), i)
        else:
            h = fn(self.lists[id], p, "".join(fmt).encode())
        h = self.lists[id] = C.c_void_p(h)
        self.emit(ev="lop", id=id, op=op, fmt=fmt, s=s, i=i, a=desc(a), data=tell(b), names=self.names(h), len=L.npy_array_list_length(h))
    def lforget(self, id, at):
        h = self.lists[id]
        for _ in range(at - 1): h = C.c_void_p(self.L.sh_lnext(h))
        self.L.sh_lforget_name(h)
        self.emit(ev="lforget", id=id, at=at)
    def lsave(self, id, comp, file, plain=False):
        L = self.L
        fn = ("%s.npz" % file).encode()
        ret = L.npy_array_list_save(fn, self.lists[id]) if plain else L.sh_save_comp(fn, self.lists[id], comp, 0)
        ent = []
        with zipfile.ZipFile(fn.decode()) as z:
            for i in z.infolist():
                ent.append(dict(name=i.filename, method=i.compress_type, file=file_of(z.read(i))))
        self.emit(ev="lsave", id=id, file=file, comp=0 if plain else comp, ret=ret, entries=ent)
    def lforeign(self, file, entries, comment="", stream=False, zip64=False):
        ent = []
        fn = "%s.npz" % file
        with open(fn, "wb") as raw_out:
            class NoSeek:                               # sizes only in data descriptors, as when written to a pipe
                def write(self, b): return raw_out.write(b)
                def flush(self): raw_out.flush()
            with zipfile.ZipFile(NoSeek() if stream else raw_out, "w") as z:
                for name, raw, method, dlen in entries:
                    raw = bytes.fromhex(raw)
                    with z.open(self.info(name, method), "w", force_zip64=zip64) as f: f.write(raw)
                    ent.append(dict(name=name, file=file_of(raw, dlen)))
                z.comment = comment.encode()
        self.emit(ev="foreign", file=file, entries=ent)
    @staticmethod
    def info(name, method):
        i = zipfile.ZipInfo(name); i.compress_type = method
        return i
    def lload(self, id, file):
        L = self.L
        h = L.npy_array_list_load(("%s.npz" % file).encode())
        h = C.c_void_p(h) if h else None
        got, p = [], h
        for name in self.names(h):
            a, d, _ = self.view(C.c_void_p(L.sh_larray(p)))
            got.append(dict(name=name, a=a, data=d))
            q = L.sh_lnext(p); p = C.c_void_p(q) if q else None
        self.lists[id] = h
        self.emit(ev="lload", id=id, file=file, got=got, len=L.npy_array_list_length(h) if h else 0)
    def lfree(self, id):
        h = self.lists.pop(id)
        if h: self.L.npy_array_list_free(h)
        self.emit(ev="lfree", id=id)

def play(nn, arg, emit):
    d = ND(nn, emit)
    for s in arg:
        getattr(d, s[0])(*s[1], **s[2])

# ---------------------------------------------------------------- parent side
# beyond 2^31 and 2^32 bytes: by the number of elements, or only with their size
BIG = [dict(shape=[65536, 65537], type="u", elem=1, endian="|", fortran=False), dict(shape=[2 ** 30 + 1], type="f", elem=4, endian="<", fortran=False),
       dict(shape=[46341, 46342], type="i", elem=1, endian="|", fortran=True), dict(shape=[2 ** 28 + 3], type="f", elem=8, endian="<", fortran=False)]
def marks_of(a): n = size_of(a); return sorted({0, 1, n // 3, 2 ** 31 - 1, 2 ** 31, n - 1} | {k for k in (2 ** 32 - 1, 2 ** 32) if k < n})
TYPES = [("f", 2), ("f", 4), ("f", 8), ("f", 16), ("i", 1), ("i", 2), ("i", 4), ("i", 8), ("u", 1), ("u", 2), ("u", 4), ("u", 8),
         ("c", 8), ("c", 16), ("c", 32), ("b", 1), ("S", 1), ("S", 3), ("S", 10), ("S", 100), ("V", 7), ("V", 123)]
def rnd_shape(r, nd=None, cap=3000):
    nd = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8]) if nd is None else nd
    if nd and r.random() < 0.12:                       # empty, with whatever lengths
        s = [r.choice([0, 1, 5, 10 ** 6, 2 ** 31, 2 ** 32 + 1, 10 ** 12, 2 ** 63 - 1]) for _ in range(nd)]
        s[r.randrange(nd)] = 0
        return s
    s, left = [], cap
    for i in range(nd):
        d = r.choice([1, 1, 2, 2, 3, 4, 5, 7, 10, 11, 99, 100]) if i < nd - 1 else r.choice([1, 2, 3, 8, 9, 10, 16, 63, 100])
        d = max(1, min(d, left)); left //= d; s.append(d)
    r.shuffle(s)
    return s
def rnd_array(r, nd=None, cap=600, **kw):
    t, e = r.choice(TYPES)
    a = dict(shape=rnd_shape(r, nd, max(1, cap // e)), type=t, elem=e, endian=r.choice(["", "", "<", "<", ">", "|"]), fortran=r.random() < 0.4, seed=r.randrange(1 << 30))
    a.update(kw)
    return a
