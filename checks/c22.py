"""C22: losses and metrics have their documented values and names."""
import ctypes, random, vf
from nets import *
METRICS = LOSSES + ["binary_accuracy", "categorical_accuracy"]
SHORT = ["mse", "mae", "mape"]

def scen(nn, arg, emit):
    L = nn.L
    ids = {}
    def num(kind, p):
        return 0 if not p else ids.setdefault((kind, p), len(ids) + 1)
    for kind, name in arg["names"]:
        get, back = (L.get_loss_func, L.get_loss_name) if kind == "loss" else (L.get_metric_func, L.get_metric_name)
        p = get(name.encode())
        emit(ev="name", kind=kind, name=name, ptr=num(kind, p), back=back(ctypes.c_void_p(p)).decode() if p else "")
    for c in arg["calls"]:
        n = len(c["p"])
        bp, bt = nn.buf(n, c["p"]), nn.buf(n, c["t"])
        rp, rt = bp.raw(), bt.raw()
        if c["kind"] == "loss":
            o = nn.buf(n)
            L.sh_call_loss(ctypes.c_void_p(L.get_loss_func(c["name"].encode())), n, bp, bt, o)
            emit(ev="lossv", name=c["canon"], p=fls(c["p"]), t=fls(c["t"]), r=fls(o.get()), guard=o.damage() + bp.damage() + bt.damage(), isame=rp == bp.raw() and rt == bt.raw())
            o.free()
        else:
            v = L.sh_call_metric(ctypes.c_void_p(L.get_metric_func(c["name"].encode())), n, bp, bt)
            emit(ev="metric", name=c["canon"], p=fls(c["p"]), t=fls(c["t"]), r=fl(v), guard=bp.damage() + bt.damage(), isame=rp == bp.raw() and rt == bt.raw())
        bp.free(); bt.free()

FULL = dict(mse="mean_squared_error", mae="mean_absolute_error", mape="mean_absolute_percentage_error")

def vectors(r, name, n):
    mode = r.choice(["prob", "prob", "wide", "edge", "tie"])
    if mode == "wide" and "crossentropy" not in name:
        p, t = rnd_vec(r, n, 10), rnd_vec(r, n, 10)
    elif mode == "edge":
        pool = [0.0, 1.0, 1e-7, 1 - 1e-7, 0.5, 1e-9, 0.9999999, 1e-30, 0.25, -0.5, 1.5, 2.0]
        if "crossentropy" in name: pool = pool[:9]
        p = [f32(r.choice(pool)) for _ in range(n)]
        t = [f32(r.choice([0.0, 1.0, 0.5, 0.25, 1e-7, 1e-9, -1.0, -0.25] if "crossentropy" not in name else [0.0, 1.0, 0.5])) for _ in range(n)]
    else:
        p = [f32(r.random()) for _ in range(n)]
        t = [float(r.random() < 0.4) for _ in range(n)]
    if mode == "tie":
        for i in range(n):
            if r.random() < 0.6: t[i] = p[i]
            elif r.random() < 0.5: p[i] = p[0]
    return p, t

def cases(r):
    cs = []
    reps = 40 if vf.THOROUGH else 5
    for n in list(range(1, 20)) + [24, 31, 32, 33, 50, 63, 64, 65] + WIDE:
        for _ in range(reps if n < 60 else 1):
            for m in METRICS:
                p, t = vectors(r, m, n)
                cs.append(dict(kind="metric", name=m, canon=m, p=p, t=t))
            for m in LOSSES:
                p, t = vectors(r, m, n)
                cs.append(dict(kind="loss", name=m, canon=m, p=p, t=t))
            for s in SHORT:
                p, t = vectors(r, s, n)
                cs.append(dict(kind=r.choice(["loss", "metric"]), name=s, canon=FULL[s], p=p, t=t))
    r.shuffle(cs)
    return cs

def names(r):
    good = LOSSES + METRICS + SHORT
    bad = ["", "MSE", "mean_squared_erro", "mean_squared_error ", "ms", "msee", "accuracy", "bce", "cce", "binary", "categorical", "sparse_categorical_crossentropy",
           "mean", "mean_absolute", "mean_absolute_percentage", "(unknown)", "binary_accuracy", "categorical_accuracy", "m\u00e6e", "x" * 300]
    out = [(k, n) for k in ("loss", "metric") for n in good + bad for _ in range(2)]
    r.shuffle(out)
    return out

def run(rep):
    r = random.Random(vf.SEED)
    rep.model(vf.model_check("FunMC", "FunMC.cfg", workers=vf.NCPU, heap="4g"), "definitions: loss gradients are derivatives of the metrics, names")
    cs = cases(r)
    jobs = []
    for vi, v in enumerate(vf.variants()):
        lib = vf.build(v)
        n = 8 if vi == 0 else 2
        for k in range(n):
            jobs.append(dict(name="%s-%d" % (v, k), mod="c22", func="scen", lib=lib, key="c22",
                             arg=dict(names=names(r), calls=cs[k::n] if vi == 0 else cs[(k + 2 * vi)::8])))
    vf.conform(rep, "FunTrace", jobs)
    rep.cov["calls"] = sum(len(j["arg"]["calls"]) for j in jobs)
    rep.cov["name_lookups"] = sum(len(j["arg"]["names"]) for j in jobs)
