"""ctypes view of the library under test (loaded in a child process only)."""
import ctypes as C, struct
from ctypes import c_int, c_uint, c_void_p, c_char_p, c_float, c_long, c_size_t, c_uint64, POINTER, byref

PROGRESS = C.CFUNCTYPE(None, c_int, c_int, c_char_p)
METRIC = C.CFUNCTYPE(c_float, c_int, POINTER(c_float), POINTER(c_float))
ACT = C.CFUNCTYPE(None, c_int, POINTER(c_float))
DER = C.CFUNCTYPE(None, c_int, POINTER(c_float), POINTER(c_float))
HOOK = C.CFUNCTYPE(None, c_void_p, c_uint, c_void_p, c_void_p)

addr = lambda h: getattr(h, "value", h)

class Vast:
    """a read-only float array of any size, zero but for the rows given: only what is not zero takes memory"""
    libc = C.CDLL(None, use_errno=True)
    libc.mmap.restype = c_void_p; libc.mmap.argtypes = [c_void_p, c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]
    libc.munmap.argtypes = [c_void_p, c_size_t]; libc.mprotect.argtypes = [c_void_p, c_size_t, C.c_int]
    def __init__(self, n, rows):
        import mmap
        self.n, self.len = n, (4 * n + 4095) // 4096 * 4096
        b = self.libc.mmap(None, self.len + 8192, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000, -1, 0)      # MAP_NORESERVE
        if b is None or b == C.c_void_p(-1).value: raise MemoryError("no address space for %d floats" % n)
        self.base = b; self.p = b + 4096 + self.len - 4 * n       # an inaccessible page right behind the data
        if self.libc.mprotect(b + 4096, self.len, 3): raise MemoryError("%d floats" % n)
        for at, xs in rows: C.memmove(self.p + 4 * at, (c_float * len(xs))(*xs), 4 * len(xs))
        if self.libc.mprotect(b + 4096, self.len, 1): raise MemoryError("%d floats" % n)
    @property
    def _as_parameter_(self): return c_void_p(self.p)
    def raw(self): return b""
    def damage(self): return 0
    def free(self):
        if self.p: self.libc.munmap(self.base, self.len + 8192); self.p = None

class Buf:
    """float buffer between guard areas; data ends as close to an inaccessible page as its alignment lets it"""
    def __init__(self, lib, n, align=4, misalign=0, init=None):
        self.lib, self.n, self.size = lib, n, n * 4
        b, t = c_void_p(), c_size_t()
        self.p = lib.L.sh_guarded(c_size_t(self.size), c_size_t(align), c_size_t(misalign), byref(b), byref(t))
        self.base, self.total = b, t
        self.a = (c_float * n).from_address(self.p) if n else []
        if init is not None:
            self.set(init)
    def set(self, xs, at=0):
        xs = list(xs)
        if xs:
            C.memmove(self.p + 4 * at, (c_float * len(xs))(*xs), 4 * len(xs))
        return self
    def setraw(self, b):
        C.memmove(self.p, b, len(b)); return self
    def get(self, lo=0, n=None):
        n = self.n - lo if n is None else n
        return list((c_float * n).from_address(self.p + 4 * lo)) if n else []
    def raw(self):
        return C.string_at(self.p, self.size)
    def hex(self):
        return self.raw().hex()
    def damage(self):
        return self.lib.L.sh_guard_damage(self.base, self.total, c_void_p(self.p), c_size_t(self.size))
    def free(self):
        if self.p:
            self.lib.L.sh_unguard(self.base, self.total); self.p = None; self.a = None
    def off(self, i):
        return c_void_p(self.p + 4 * i)
    @property
    def _as_parameter_(self):
        return c_void_p(self.p)

class NN:
    def __init__(self, path):
        L = self.L = C.CDLL(path)
        self.path = path
        P = c_void_p
        for f in ("sh_w sh_b sh_act sh_der sh_loss sh_nn_block sh_create sh_sgd sh_adagrad sh_rmsprop sh_adam sh_default_optimizer sh_opt_metric "
                  "sh_probe sh_es sh_es_default sh_mcp sh_mcp_default sh_logger sh_npy_new sh_npy_data sh_lnext sh_larray sh_append sh_prepend "
                  "sh_append_si sh_prepend_si sh_guarded neuralnet_create neuralnet_load get_activation_func get_activation_derivative "
                  "get_loss_func get_metric_func npy_array_load npy_array_mmap npy_array_list_load npy_array_list_append npy_array_list_prepend").split():
            getattr(L, f).restype = P
        for f in "sh_act_name sh_loss_name sh_lname get_activation_name get_loss_name get_metric_name".split():
            getattr(L, f).restype = c_char_p
        for f in "sh_npy_shape sh_npy_elem sh_npy_size".split():
            getattr(L, f).restype = c_uint64
        L.sh_heap.restype = L.sh_load_growth.restype = c_long
        L.sh_call_metric.restype = c_float
        L.npy_array_list_length.restype = c_size_t
        L.sh_total.restype = c_uint
        self.align = L.sh_align()
        self.keep = []; self.narrow = {}; self.strayed = False

    # networks -----------------------------------------------------
    def create(self, sizes, acts, layers=None):
        """layers: another number of layers than the sizes say (plausible sizes lie around them)"""
        n = len(sizes) - 1 if layers is None else layers
        around = (c_int * (len(sizes) + 32))(*[3] * 16, *sizes, *[3] * 16)
        s = C.cast(C.addressof(around) + 16 * 4, POINTER(c_int)) if layers is not None else (c_int * len(sizes))(*sizes)
        a = (c_char_p * (max(n, len(acts)) + 1))(*[None if x is None else x.encode() for x in acts])
        r = self.L.sh_create(n, s, a)
        return c_void_p(r) if r else None
    def load(self, fn):
        r = self.L.neuralnet_load(fn.encode()); return c_void_p(r) if r else None
    def free(self, nn):
        self.narrow.pop(addr(nn), None); self.L.neuralnet_free(nn)
    def total(self, nn): return self.L.sh_total(nn)
    def shape(self, nn):
        k = self.L.sh_n_layers(nn)
        return [self.L.sh_lin(nn, 0)] + [self.L.sh_lout(nn, i) for i in range(k)]
    def acts(self, nn):
        return [self.L.sh_act_name(nn, i).decode("latin1") for i in range(self.L.sh_n_layers(nn))]
    def weights(self, nn, l):
        n = self.L.sh_lin(nn, l) * self.L.sh_lout(nn, l)
        return (c_float * n).from_address(self.L.sh_w(nn, l))
    def biases(self, nn, l):
        return (c_float * self.L.sh_lout(nn, l)).from_address(self.L.sh_b(nn, l))
    def set_layer(self, nn, l, bias, weights):
        self.biases(nn, l)[:] = bias
        self.weights(nn, l)[:] = weights
    def params(self, nn):
        """documented layout, read from the structure itself: per layer biases then row-major weights"""
        if addr(nn) in self.narrow:
            return self.narrowed(nn, [self.biases(nn, 0), self.weights(nn, 0)] + [f(nn, l) for l in range(1, self.L.sh_n_layers(nn)) for f in (self.biases, self.weights)], self.narrow[addr(nn)][1])
        out = []
        for l in range(self.L.sh_n_layers(nn)):
            out += list(self.biases(nn, l)) + list(self.weights(nn, l))
        return out
    # a network with very many inputs of which all but those in `keep` are zero in every sample: seen as the network of those inputs.
    # The weights of the others (all `fill`) must stay, their gradient (`fill` zero) must be zero: else `strayed` says so.
    def narrowed(self, nn, parts, fill):
        keep, no = self.narrow[addr(nn)][0], self.L.sh_lout(nn, 0)
        w = bytes(parts[1]); f = struct.pack("f", fill) * no; rest = bytearray(w); out = list(parts[0])
        for i in keep:
            out += struct.unpack("%df" % no, w[4 * no * i:4 * no * (i + 1)]); rest[4 * no * i:4 * no * (i + 1)] = f
        if fill == 0: self.strayed |= rest.strip(b"\0\x80") != b"" or any(abs(v) > 0 for v in struct.unpack("%df" % (len(rest) // 4), rest))
        else: self.strayed |= rest != f * (len(w) // len(f))
        for q in parts[2:]: out += list(q)
        return out
    def narrow_grad(self, nn, g):
        s, k, parts = self.shape(nn), 0, []
        for l in range(len(s) - 1):
            for m in (s[l + 1], s[l] * s[l + 1]): parts.append((c_float * m).from_buffer_copy(g[4 * k:4 * (k + m)])); k += m
        return self.narrowed(nn, parts, 0.0)
    def params_hex(self, nn):
        s = b""
        for l in range(self.L.sh_n_layers(nn)):
            s += bytes(self.biases(nn, l)) + bytes(self.weights(nn, l))
        return s.hex()
    def set_params(self, nn, flat):
        k = 0
        for l in range(self.L.sh_n_layers(nn)):
            nb, nw = self.L.sh_lout(nn, l), self.L.sh_lin(nn, l) * self.L.sh_lout(nn, l)
            self.set_layer(nn, l, flat[k:k + nb], flat[k + nb:k + nb + nw]); k += nb + nw
    def block(self, nn):
        n = c_int()
        p = self.L.sh_nn_block(nn, byref(n))
        return C.string_at(p, n.value)
    def buf(self, n, init=None, align=None, misalign=0):
        return Buf(self, n, align or 4, misalign, init)
    def abuf(self, n, init=None):
        return Buf(self, n, self.align, 0, init)
    def predict(self, nn, x):
        bx = self.buf(len(x), x); o = self.abuf(self.shape(nn)[-1])
        self.L.neuralnet_predict(nn, bx, o)
        r = o.get(); bx.free(); o.free(); return r
    def metrics(self, fs):
        a = (c_void_p * (len(fs) + 1))(*[f if isinstance(f, int) else C.cast(f, c_void_p).value for f in fs], None)
        self.keep.append(a); self.keep.append(fs)
        return a
    def metric(self, name):
        return self.L.get_metric_func(name.encode())
