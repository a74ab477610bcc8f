"""Build, TLC and reporting helpers shared by all checks."""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
def set_tier(t):
    global TIER, THOROUGH
    TIER, THOROUGH = t, t == "thorough"
NCPU = min(8, os.cpu_count() or 1)
T0 = time.time()

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-%d-" % os.getpid(), dir="/tmp")
        main = os.getpid()
        def clean():
            if os.getpid() == main and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(2))
    return _scratch

def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

class BuildError(Exception):
    pass

# ------------------------------------------------------------------ build
def cpu_flags():
    try:
        t = open("/proc/cpuinfo").read()
    except OSError:
        t = ""
    f = set(re.findall(r"\b(avx512f|avx2|avx|fma|sse3|pni)\b", t))
    return f

def variants():
    """name -> extra compiler flags; 'native' is what the repository's configure picks on this machine."""
    f = cpu_flags()
    v = {}
    if "avx512f" in f:
        v["avx512"] = ["-mavx512f", "-mfma"] if "fma" in f else ["-mavx512f"]
    if "avx2" in f:
        v["avx2"] = ["-mavx2", "-mfma"] if "fma" in f else ["-mavx2"]
    if "avx" in f:
        v["avx"] = ["-mavx"]
    v["sse"] = []
    return v

def native():
    return next(iter(variants()))

_built = {}
def build(variant=None, extra=(), shim="shim.c", opt="-O3", sources=None):
    """Shared library of the working tree's sources plus the shim. Returns its path."""
    variant = variant or native()
    key = (variant, tuple(extra), shim, opt)
    if key in _built:
        return _built[key]
    out = sub("build-%s-%d" % (variant, len(_built)))
    flags = variants()[variant]
    base = ["gcc", "-std=c99", "-w", opt, "-fopenmp", "-g", "-fPIC", "-I", REPO + "/src", "-I", REPO + "/npy_array"]
    srcs = sorted(glob.glob(REPO + "/src/*.c")) + sorted(glob.glob(REPO + "/npy_array/*.c"))
    jobs = []
    for s in srcs:
        o = os.path.join(out, os.path.basename(s) + ".o")
        # npy_array is built by the repository without the CPU flags
        jobs.append((base + (flags if "/src/" in s else []) + list(extra) + ["-c", s, "-o", o], o))
    if shim:
        o = os.path.join(out, "shim.o")
        jobs.append((["gcc", "-std=gnu11"] + base[2:] + flags + list(extra) + ["-c", os.path.join(VERIF, "harness", shim), "-o", o], o))
    def run(j):
        r = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("compile failed: %s\n%s" % (" ".join(j[0]), r.stdout))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run, jobs))
    lib = os.path.join(out, "libnn.so")
    libs = ["-lzip", "-ldl", "-lm"]
    if any("USE_CBLAS" in e for e in extra):
        libs = ["-lopenblas"] + libs
    r = subprocess.run(["gcc", "-shared", "-fopenmp", "-o", lib] + [j[1] for j in jobs] + libs,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("link failed: " + r.stdout)
    _built[key] = lib
    return lib

def cc_shared(src, name, extra=()):
    out = os.path.join(sub("so"), name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-w", "-o", out, os.path.join(VERIF, "harness", src)] + list(extra),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("harness compile failed: " + r.stdout)
    return out

# ------------------------------------------------------------------ TLC
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
def _classpath():
    cps = [TLA_JAR] + sorted(glob.glob("/opt/veriftools/tla/*.jar"))
    seen = []
    for c in cps:
        if c not in seen:
            seen.append(c)
    return ":".join(seen)

class TLCError(Exception):
    pass

class TLCResult:
    pass

_tlc_n = [0]
def tlc(module, cfg, env=None, workers=1, args=(), timeout=600, heap="2g", depth_first=False, coverage=False, simulate=None, quiet=True):
    """Run TLC on spec/<module>.tla with spec/<cfg> (or a literal config text containing a newline)."""
    _tlc_n[0] += 1
    n = _tlc_n[0]
    d = os.path.join(scratch(), "tlc-%d-%d" % (os.getpid(), n))
    os.makedirs(d)
    for f in glob.glob(VERIF + "/spec/*.tla"):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    if "\n" in cfg:
        open(os.path.join(d, "run.cfg"), "w").write(cfg)
    else:
        shutil.copy(os.path.join(VERIF, "spec", cfg), os.path.join(d, "run.cfg"))
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d]
    if depth_first:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", _classpath(), "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"),
            "-workers", str(workers), "-noGenerateSpecTE"]
    if coverage:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise TLCError("TLC timed out on %s after %ss" % (module, timeout))
    r = TLCResult()
    r.out = p.stdout
    r.rc = p.returncode
    r.wall = time.time() - t
    r.dir = d
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", p.stdout)
    r.generated = int(m.group(1).replace(",", "")) if m else 0
    r.distinct = int(m.group(2).replace(",", "")) if m else 0
    m = re.search(r"The depth of the complete state graph search is (\d+)", p.stdout)
    r.depth = int(m.group(1)) if m else 0
    r.ok = p.returncode == 0
    # 10: assumption, 11: deadlock, 12: safety, 13: liveness ; others are errors of the model itself
    r.violation = p.returncode in (10, 11, 12, 13)
    if not r.ok and not r.violation:
        raise TLCError("TLC error (rc %d) on %s:\n%s" % (p.returncode, module, p.stdout[-4000:]))
    return r

def model_check(module, cfg, **kw):
    """Exhaustive check of the design; a failure here is an error of the spec, not of the code."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise TLCError("the specification %s itself violates its properties:\n%s" % (module, r.out[-5000:]))
    return r

# ------------------------------------------------------------------ trace validation
def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")

def validate(module, traces, cfg=None, timeout=800, heap="3g", parallel=None, extra_env=None):
    """traces: list of (name, rows). Each is validated by TLC against spec/<module>.tla, whose trace comes from the file
    named in env TRACE. Returns (list of rejections, total distinct states). Accepts are by POSTCONDITION."""
    d = sub("traces")
    parallel = parallel or NCPU
    cfg = cfg or module + ".cfg"
    def one(i):
        name, rows = traces[i]
        path = os.path.join(d, "%s-%d.ndjson" % (re.sub(r"\W", "_", name)[:60], _uid()))
        write_ndjson(path, rows)
        e = {"TRACE": path}
        e.update(extra_env or {})
        r = tlc(module, cfg, env=e, timeout=timeout, heap=heap)
        rej = None
        if not r.ok:
            m = re.findall(r"TRACE_REJECTED_AT\D+(\d+)", r.out)
            at = int(m[-1]) if m else (r.depth - 1 if r.depth else 0)
            info = [re.sub(r"\s+", " ", x)[:600] for x in re.findall(r"TRACE_INFO.*(?:\n(?!Error|[A-Z]).*)*", r.out)]
            rej = dict(trace=name, path=path, at=at, rows=rows, out=r.out, info=info[-3:])
        return rej, r
    with ThreadPoolExecutor(parallel) as ex:
        res = list(ex.map(one, range(len(traces))))
    return [x[0] for x in res if x[0]], sum(x[1].distinct for x in res), sum(x[1].generated for x in res)

_u = [0]
def _uid():
    _u[0] += 1
    return _u[0]

# ------------------------------------------------------------------ exact float exchange
import math, struct
def fl(x):
    """float -> [m,e] with x = m*2^e, 2^29<=|m|<2^30 (exact for float32); specials: [0,999]=nan,[1,999]=inf,[-1,999]=-inf; -0 = [0,-1]."""
    if x != x: return [0, 999]
    if x in (math.inf, -math.inf): return [1 if x > 0 else -1, 999]
    if x == 0: return [0, -1] if math.copysign(1, x) < 0 else [0, 0]
    m, e = math.frexp(x)
    m = m * (1 << 30)
    mi = int(m)
    if mi != m:
        mi = int(round(m))
        if abs(mi) == 1 << 30:
            mi //= 2; e += 1
    return [mi, e - 30]
def fls(xs): return [fl(float(x)) for x in xs]
def f32(x): return struct.unpack("f", struct.pack("f", x))[0]
def bits(x):
    """float32 bits as a signed 32-bit integer"""
    return struct.unpack("i", struct.pack("f", x))[0]

# ------------------------------------------------------------------ reporting
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

class Report:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.samples = []
        self.known_seen = set()
        self.states = self.transitions = self.traces = 0
    def model(self, r, name):
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("models", []).append(dict(model=name, distinct_states=r.distinct, transitions=r.generated, depth=r.depth, wall_s=round(r.wall, 1)))
        log("model %s: %d distinct states, %d transitions, depth %d, %.1fs" % (name, r.distinct, r.generated, r.depth, r.wall))
    def conform(self, n, states, transitions):
        self.traces += n
        self.states += states
        self.transitions += transitions
    def violate(self, key, text, artefact):
        """key identifies the specific failing input/call site; a listed known finding is only announced."""
        for k, what in known_findings(self.pid):
            if k == key:
                if k not in self.known_seen:
                    self.known_seen.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, what), flush=True)
                return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, key=key, what=text, artefact=artefact), f, indent=1, default=str)
        self.violations.append((text, path))
    def finish(self):
        self.cov["states"] = self.states
        self.cov["transitions"] = self.transitions
        self.cov["traces_validated_against_impl"] = self.traces
        self.cov["samples"] = self.samples[:5] or ["(none)"]
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for text, path in self.violations[:10]:
            log(text)
        for text, path in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        if self.violations:
            return 1
        log("property %s held on everything explored: %d states, %d transitions, %d traces of the implementation" %
            (self.pid, self.states, self.transitions, self.traces))
        return 0

# ------------------------------------------------------------------ driving the implementation
def drive(mod, func, lib, arg, timeout=240, env=None, preexec=None, keep_partial=True):
    """Run checks/<mod>.py:<func>(nn, arg, emit) in a child. Returns (events, end) with end None if it ended normally,
    else {'ev':'crash','how':...} / {'ev':'hang'}: an observation of the implementation, not an error of the check."""
    d = sub("drive")
    n = _uid()
    argf, outf = "%s/a%d-%d.json" % (d, os.getpid(), n), "%s/o%d-%d.ndjson" % (d, os.getpid(), n)
    json.dump(arg, open(argf, "w"))
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_WAIT_POLICY="passive", LC_ALL="C.UTF-8", OPENBLAS_NUM_THREADS="1",
             GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0:glibc.malloc.perturb=165")   # the heap counts every release at once; fresh memory is never zero
    e.setdefault("OMP_NUM_THREADS", "4")
    e.update(env or {})
    cwd = sub("cwd-%d-%d" % (os.getpid(), n))
    p = subprocess.Popen([sys.executable, os.path.join(VERIF, "lib", "drive.py"), mod, func, lib, argf, outf], env=e, cwd=cwd,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=preexec, start_new_session=True)
    end = None
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        end = {"ev": "hang", "how": "timeout"}
    evs = []
    if os.path.exists(outf):
        for line in open(outf, errors="replace"):
            try:
                evs.append(json.loads(line))
            except ValueError:
                pass
    done = bool(evs) and evs[-1].get("ev") == "__end"
    if done:
        evs.pop()
    txt = o.decode("utf8", "replace")
    if not done and end is None:
        if p.returncode > 0 and "Traceback (most recent call last)" in txt:
            raise RuntimeError("driver error in %s.%s:\n%s" % (mod, func, txt[-3000:]))
        end = {"ev": "crash", "how": "signal %d" % -p.returncode if p.returncode < 0 else "exit %d" % p.returncode, "output": txt[-400:]}
    shutil.rmtree(cwd, ignore_errors=True)
    for f in (argf, outf):
        try: os.unlink(f)
        except OSError: pass
    return evs, end

def conform(rep, module, jobs, cfg=None, heap="3g", timeout=800, retries=1, par_drive=None):
    """jobs: dicts with name, mod, func, lib, arg (optional timeout, env, key). Drives the implementation, validates every
    recorded trace against spec/<module>.tla, and reports a violation for each rejection that repeats when driven again."""
    def one(j):
        evs, end = drive(j["mod"], j["func"], j["lib"], j["arg"], timeout=j.get("timeout", 240), env=j.get("env"), preexec=j.get("preexec"))
        if end:
            evs.append(end)
        return evs
    t = time.time()
    traces = [(j["name"], e) for j, e in zip(jobs, pmap(one, jobs, par_drive))]
    log("%s: %d scenarios driven, %d events, %.1fs" % (module, len(traces), sum(len(x[1]) for x in traces), time.time() - t))
    t = time.time()
    rej, st, tr = validate(module, traces, cfg=cfg, heap=heap, timeout=timeout)
    log("%s: traces validated, %d states, %d rejected, %.1fs" % (module, st, len(rej), time.time() - t))
    rep.conform(len(traces), st, tr)
    for n, e in traces[:: max(1, len(traces) // 3)][:3]:
        if e:
            rep.samples.append(dict(scenario=n, events=len(e), first=json.dumps(e[0])[:300], last=json.dumps(e[-1])[:300]))
    byname = {j["name"]: j for j in jobs}
    seen = 0
    for r in rej:
        if seen >= 3:
            break
        j = byname[r["trace"]]
        again = None
        for _ in range(retries):
            evs = one(j)
            rj, _, _ = validate(module, [(j["name"], evs)], cfg=cfg, heap=heap, timeout=timeout)
            if rj:
                again = rj[0]
                break
        if not again:
            log("rejection of %s at event %d did not repeat: %s %s" % (r["trace"], r["at"], json.dumps(r["rows"][r["at"]])[:300] if r["at"] < len(r["rows"]) else "(end)", r["info"]))
            rep.cov["rejections_not_repeated"] = rep.cov.get("rejections_not_repeated", 0) + 1
            continue
        seen += 1
        row = again["rows"][again["at"]] if again["at"] < len(again["rows"]) else {"ev": "(end)"}
        key = "%s:%s" % (j.get("key", j["name"]), row.get("ev"))
        what = "the specification %s does not allow event %d of scenario %s: %s %s" % (
            module, again["at"], j["name"], json.dumps(row)[:400], " ".join(again["info"])[:300])
        rep.violate(key, what, dict(module=module, scenario=j["name"], arg=j["arg"], at=again["at"], event=row, info=again["info"],
                                    preceding=again["rows"][max(0, again["at"] - 5):again["at"]]))
    return traces

def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(f, xs))

def behaviours(rep, module, cfg, name, **kw):
    """Exhaustive run of a model whose invariant prints every complete behaviour as BEH <json>; returns the behaviours."""
    r = model_check(module, cfg, **kw)
    rep.model(r, name)
    out = []
    for m in re.finditer(r'<<"BEH", "(.*)">>', r.out):
        out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if not out:
        raise TLCError("no behaviours printed by " + module)
    out.sort(key=lambda b: json.dumps(b, sort_keys=True))
    return out
