"""C27: the progress bar tells how far an epoch has come, on one line of a terminal and nowhere else."""
import ctypes as C, fcntl, os, pty, random, struct, termios, threading, tty, vf
from nets import *

class Screen:
    """standard output is a terminal of so many columns (None: a file), standard error a file"""
    def __init__(self, nn, cols):
        self.nn, self.cols = nn, cols
        self.saved = os.dup(1), os.dup(2)
        self.err = os.open("err", os.O_CREAT | os.O_RDWR | os.O_TRUNC)
        if cols is None: self.out = self.slave = os.open("out", os.O_CREAT | os.O_RDWR | os.O_TRUNC | os.O_APPEND)
        else:
            self.out, self.slave = pty.openpty(); tty.setraw(self.slave)
            fcntl.ioctl(self.slave, termios.TIOCSWINSZ, struct.pack("HHHH", 24, cols, 0, 0))
        nn.L.sh_flush(); os.dup2(self.slave, 1); os.dup2(self.err, 2)
        nn.L.sh_buffered(int(cols is not None))
    def run(self, f):
        """what f writes"""
        got = []
        if self.cols is None:
            os.ftruncate(self.out, 0)
            f(); self.nn.L.sh_flush(); got.append(os.pread(self.out, 1 << 20, 0))
        else:
            def reader():
                while True:
                    b = os.read(self.out, 65536); got.append(b)
                    if b.endswith(b"\x04"): break
            def seen(f):
                t = threading.Thread(target=reader); t.start()
                f(); os.write(self.slave, b"\x04"); t.join()
            seen(f)
            n = sum(map(len, got)) - 1
            seen(self.nn.L.sh_flush)                                              # it is there at once: nothing is left for later
        o = b"".join(got)
        late = ""
        if self.cols is not None: o, late = o[:n], o[n + 1 : -1].decode("latin1")
        e = os.pread(self.err, 1 << 16, 0); os.ftruncate(self.err, 0); os.lseek(self.err, 0, 0)
        return dict(out=o.decode("latin1"), late=late, err=e.decode("latin1"))
    def close(self):
        self.nn.L.sh_flush(); os.dup2(self.saved[0], 1); os.dup2(self.saved[1], 2)
        for fd in {self.out, self.slave, self.err, *self.saved}: os.close(fd)

def scen(nn, arg, emit):
    for c in arg:
        s = Screen(nn, c["cols"])
        common = dict(tty=c["cols"] is not None, cols=c["cols"] or 0)
        for x, n, fmt, st, i, label in c["bars"]:
            emit(ev="bar", x=x, n=n, label=label, **common, **s.run(lambda: nn.L.sh_progress(x, n, fmt.encode(), st.encode(), i)))
        for kind, n, bs, shuffle in c["epochs"]:
            h = nn.create([1, 1], ["linear"]); nn.set_params(h, [0.5, 0.25]); nn.L.neuralnet_set_loss(h, b"mse")
            o = C.c_void_p(nn.L.sh_bar_optimizer(h, kind, bs, shuffle))
            X, Y = nn.buf(n, [0.001 * (i % 7) for i in range(n)]), nn.buf(n, [0.0] * n); r = nn.buf(2)
            emit(ev="epoch", n=n, bs=bs, label="Train: ", **common, **s.run(lambda: nn.L.sh_run_epoch(o, n, X, Y, 0, None, None, r)))
            nn.L.sh_opt_free(o); nn.free(h)
            for b in (X, Y, r): b.free()
        s.close()

def bar(r, label=None):
    n = r.choice([1, 2, 3, 5, 7, 8, 10, 16, 31, 64, 99, 100, 101, 128, 300, 999, 1000, 1024, 4096, 10000, 60000, 99999, 999983, 1200000, 4194304, 16777217, 21474837, 60000000, 10 ** 9, 2 ** 30 + 1, 2 ** 31 - 1])
    x = r.choice([0, n, n, n - 1, 1, n // 2, n // 3, r.randint(0, n), r.randint(0, n), r.randint(0, n)])
    k = r.choice([0, 0, 1, 2, 3])
    s, i = "".join(r.choice("abc %d/[#]-:\\") for _ in range(r.choice([0, 1, 5, 20]))), r.choice([0, 7, -3, 12345, 2 ** 31 - 1])
    f, l = [("Train: ", "Train: "), ("%s", s), ("%s %d: ", "%s %d: " % (s, i)), ("100%%", "100%")][k]
    return [x, n, f, s, i, l]

def run(rep):
    r = random.Random(vf.SEED + 27)
    T = vf.THOROUGH
    rep.model(vf.model_check("ProgMC", "ProgMC.cfg", workers=4), "every epoch's bars on a terminal that wraps")
    cs = []
    for cols in [None] * 6 + [0, 0] + list(range(1, 42)) + [50, 60, 64, 70, 77, 78, 79, 80, 81, 82, 99, 100, 101, 120, 127, 128, 132, 160, 200, 255, 256, 257, 300, 511, 1023, 2100, 4096]:
        bars = [bar(r) for _ in range(60 if T else 14)] + [[x, n, "Train: ", "", 0, "Train: "] for n in (3, 10, 100) for x in (0, 1, n // 2, n - 1, n)] \
             + [[x, n, "%s", l, 0, l] for k in (cols or 0,) if k > 60 for m in {60, k // 2, k - 30, k - 9, k - 8, k - 7} for l in ["".join(r.choice("ab c:.[%") for _ in range(m))] for n in (10, 977) for x in (n // 3, n)] \
             + [[n * k // 7, n, "Train: ", "", 0, "Train: "] for n in (3000000, 25000000, 2 ** 31 - 1) for k in (1, 3, 6, 7)]
        cs.append(dict(cols=cols, bars=bars, epochs=[[k, r.choice([1, 2, 3, 5, 8, 10, 13, 30]), r.choice([1, 2, 3, 4, 7, 8, 16]), int(r.random() < 0.5)] for k in range(4)] + [[r.randrange(4), r.choice([100, 101, 200]), r.choice([1, 9, 32]), 1]]))
    cs += [dict(cols=c, bars=[[7, 9, "Train: ", "", 0, "Train: "]], epochs=[]) for c in (32767, 32775, 65535)]
    r.shuffle(cs)
    lib = vf.build()
    k = 8
    jobs = [dict(name="bars-%d" % i, mod="c27", func="scen", lib=lib, arg=cs[i::k], key="c27") for i in range(k)]
    vf.conform(rep, "ProgTrace", jobs)
    rep.cov["bars"] = sum(len(c["bars"]) for c in cs)
