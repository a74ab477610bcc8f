"""C02: NPY files of other programs are read as what they describe; other versions and broken headers are refused."""
import random, re, resource, vf
from train import S
from npy import *

def with_data(r, a, hdr, extra=b"", cut=None):
    b = random.Random(r.randrange(1 << 30)).randbytes(size_of(a))
    raw = hdr + b + extra
    return S("foreign", (raw if cut is None else raw[:cut]).hex(), size_of(a))

def little():
    """a header may ask for any size: that much must not really be used"""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

def run(rep):
    r = random.Random(vf.SEED + 2)
    rep.model(vf.model_check("NpyMC", "NpyMC.cfg", workers=vf.NCPU), "writer, byte by byte, with a reader at any time")
    beh = vf.behaviours(rep, "NpyHdr", "NpyHdr.cfg", "every layout of a header means the same array", workers=1)
    T = vf.THOROUGH
    pick = beh if T else r.sample(beh, 1400)
    cs = []
    for b in pick:
        t = b["text"]
        # the data the header asks for (the specification checks the length)
        e = int(re.search(r"[<>|][fiuS](\d+)", t).group(1)); n = e
        for d in re.search(r"\(([^)]*)\)", t).group(1).replace(" ", "").split(","):
            if d: n *= int(d)
        cs.append(S("foreign", (header(None, t, b["pad"], b["minor"]) + r.randbytes(n)).hex(), n))
    for nd in range(9):
        for t, e in TYPES:
            a = rnd_array(r, nd, type=t, elem=e)
            cs.append(with_data(r, a, header(a)))
    # header lengths: all low bytes, both sides of every 128 and 256 boundary, and the largest
    for pad in list(range(0, 300)) + [440, 450, 700, 1000, 4000, 4096, 16000, 32600, 32700, 32767, 33000, 50000, 65400] + [65535 - 61 - k for k in range(3)]:
        a = rnd_array(r, r.choice([0, 1, 2, 3]), cap=64)
        pad = min(pad, 65535 - (len(header(a)) - 10))
        h = header(a, pad=pad)
        cs.append(with_data(r, a, h))
    a = rnd_array(r, 1, shape=[4], type="f", elem=4, endian="<", fortran=False)
    n0 = len(header(a)) - 10
    cs.append(with_data(r, a, header(a, pad=65535 - n0))); cs.append(with_data(r, a, header(a, pad=65534 - n0)))
    for minor in (0, 1, 2, 9, 127, 200, 255):
        cs.append(with_data(r, a, header(a, minor=minor)))
    # wrong magic and versions
    for i in range(6):
        for x in (0, 1, 0x80):
            h = bytearray(header(a)); h[i] ^= x or 0xff
            cs.append(with_data(r, a, bytes(h)))
    for major in [0, 2, 3, 4, 9, 128, 129, 255]:
        h = bytearray(header(a)); h[6] = major
        cs.append(with_data(r, a, bytes(h)))
    # incomplete dictionaries
    full = ["'descr': '<f4'", "'fortran_order': False", "'shape': (4,)"]
    for keep in ([], [0], [1], [2], [0, 1], [0, 2], [1, 2]):
        cs.append(with_data(r, a, header(a, "{" + ", ".join(full[i] for i in keep) + ", }")))
    cs.append(with_data(r, a, header(a, "{'descr': '<f4', 'fortran_order': False, 'Shape': (4,), }")))
    # more dimensions than the library has
    for nd in (9, 10, 20, 32):
        b = dict(a, shape=[1] * nd); cs.append(with_data(r, b, header(b)))
    # dimensions whose product does not fit
    for s in ([2 ** 32, 2 ** 32], [2 ** 16] * 4, [2 ** 62, 4], [2 ** 31, 2 ** 31, 2, 2], [2 ** 63 - 1, 3], [3, 2 ** 62 + 1]):
        for e in (1, 4, 8):
            b = dict(a, shape=s, elem=e); cs.append(S("foreign", (header(b) + b"x" * 64).hex(), 0))
    # as much data as is left of the size when it is cut to 32 or 31 bits
    for s, t, e, n in ([65536, 65537], "u", 1, 65536), ([2 ** 30 + 1], "f", 4, 4), ([2 ** 31, 2], "u", 1, 0), ([2 ** 32 + 5], "i", 1, 5), ([2 ** 16, 2 ** 16, 3], "u", 2, 0), \
                      ([2 ** 29, 2, 2, 2], "f", 8, 0), ([2 ** 32], "u", 8, 64), ([3, 2 ** 32 + 1], "f", 4, 12), ([2 ** 61 + 1], "f", 8, 8), ([2 ** 32 + 1, 2 ** 32], "u", 1, 0), ([2 ** 31 + 1, 2], "u", 1, 2):
        b = dict(a, shape=s, type=t, elem=e)
        for k in {n, 0, 64, 4096}: cs.append(S("foreign", (header(b) + b"x" * k).hex(), size_of(b)))
    # any white space anywhere a Python literal may have it
    for _ in range(3000 if T else 400):
        b = rnd_array(r, cap=40); b["endian"] = b["endian"] or "<"
        sp = lambda: r.choice(["", "", "", " ", "  ", "\t", "\n", "\r\n", " \t "])
        q = lambda x: (lambda c: c + x + c)(r.choice("'\""))
        dims = [sp() + str(d) + sp() for d in b["shape"]]
        tup = "(" + ",".join(dims) + ("," if len(dims) == 1 or dims and r.random() < 0.5 else "") + (sp() if True else "") + ")"
        items = [q("descr") + sp() + ":" + sp() + q("%s%s%d" % (b["endian"], b["type"], b["elem"])), q("fortran_order") + sp() + ":" + sp() + str(b["fortran"]), q("shape") + sp() + ":" + sp() + tup]
        r.shuffle(items)
        cs.append(with_data(r, b, header(b, "{" + sp() + (sp() + "," + sp()).join(items) + sp() + r.choice(["", ","]) + sp() + "}" + sp())))
    # one character of a header changed, lost or doubled: whatever it means
    for _ in range(5000 if T else 500):
        b = rnd_array(r, cap=40); b["endian"] = b["endian"] or "<"
        h = bytearray(header(b)); k = r.randrange(6, len(h))
        if r.random() < 0.5: h[k] = r.choice([r.randrange(256), ord(r.choice("{}()<>|'\", 0123456789-"))])
        else:
            m = h[8] + 256 * h[9] + (1 if r.random() < 0.5 else -1)
            if k > 9: h[k:k + 1] = h[k:k + 1] * (1 + m - (len(h) - 10)); h[8], h[9] = m & 255, m >> 8
        cs.append(S("foreign", (bytes(h) + r.randbytes(size_of(b))).hex(), "?"))
    for t in ("<f0", "|S0", "|u-1", "<f", "<", "", "f4", "<f4<f4", "<f99999999999999999999", "<f18446744073709551615", "<f4x", "[('a', '<f4')]"):
        b = dict(a); cs.append(S("foreign", (header(b, "{'descr': '%s', 'fortran_order': False, 'shape': (4,), }" % t) + b"x" * 64).hex(), 16))
    # bytes after the array, and too few
    for _ in range(2000 if T else 200):
        b = rnd_array(r)
        if size_of(b) > 5000: continue
        b["endian"] = b["endian"] or "<"
        x = r.random()
        if x < 0.3: cs.append(with_data(r, b, header(b, pad=r.randrange(100)), extra=b"y" * r.choice([1, 64, 5000])))
        elif x < 0.5: cs.append(with_data(r, b, header(b, pad=r.randrange(100)), cut=-r.choice([1, 1, 2, 5])))
        else: cs.append(with_data(r, b, header(b, pad=r.randrange(300))))
    for junk in (b"", b"\x93", b"\x93NUMPY", b"\x93NUMPY\x01\x00", b"\x93NUMPY\x01\x00\x00\x00", b"\x93NUMPY\x01\x00\xff\xff", b"PK\x03\x04" + b"\0" * 60, b"hello world, this is text\n"):
        cs.append(S("foreign", junk.hex(), 0))
    r.shuffle(cs)
    lib = vf.build()
    k = 16
    jobs = [dict(name="files-%d" % i, mod="npy_play", func="play", lib=lib, arg=cs[i::k], key="c02", preexec=little) for i in range(k)]
    jobs += [dict(name="big-%d" % i, mod="npy_play", func="play", lib=lib, arg=[S("bigforeign", a, marks_of(a), ["map", "load"] if i == 0 else ["map"]), S("bigforeign", a, marks_of(a), ["map", "load"] if i == 0 else ["map"], cut=1)], key="c02", env={"GLIBC_TUNABLES": ""})
             for i, a in enumerate(BIG)]
    vf.conform(rep, "NpyTrace", jobs)
    rep.cov["files"] = len(cs); rep.cov["layouts_enumerated"] = len(beh)
