"""Machinery shared by all checks: builds the library from /repo's working tree,
runs TLC (exhaustive, generation, trace validation) and the C++ drivers."""
import os, sys, subprocess, hashlib, json, re, time, shutil, glob, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XMM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 2)
INCS = ["src", "src/core/common", "src/core/distributions", "src/core/model", "src/core/trainingset",
        "src/models/gmm", "src/models/hmm", "src/models/kmeans",
        "dependencies/jsoncpp/include", "dependencies/jsoncpp/src"]
FLAVOURS = {
    # -fno-sanitize=vptr etc. not needed; float-cast-overflow is not part of the default set
    "asan": dict(cxx="clang++", flags=["-std=c++11", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                       "-fno-sanitize-recover=all", "-pthread", "-w"]),
    "tsan": dict(cxx="clang++", flags=["-std=c++11", "-O1", "-g", "-fsanitize=thread", "-pthread", "-w"]),
    "plain": dict(cxx="g++", flags=["-std=c++11", "-O2", "-g", "-pthread", "-w"]),
}
ENV = dict(os.environ, LC_ALL="C",
           # fresh memory is filled with a pattern, so that reading it before writing shows
           ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d:exitcode=66:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0:abort_on_error=0" % 0xC9,
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=66", TSAN_OPTIONS="exitcode=66:halt_on_error=1")


class CheckError(Exception):
    """the check itself could not be carried out"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as g: h.update(g.read())
    return h.hexdigest()[:16]


def ensure_java():
    out = os.path.join(BUILD, "java")
    src = glob.glob(os.path.join(VERIF, "java", "*.java"))
    tag = os.path.join(out, _hash(src) + ".ok")
    with Lock():
        if not os.path.exists(tag):
            os.makedirs(out, exist_ok=True)
            r = sh(["javac", "-nowarn", "-cp", TLA, "-d", out] + src)
            if r.returncode: raise CheckError("javac failed:\n" + r.stdout)
            open(tag, "w").close()
    return out


def repo_sources():
    s = []
    for d in ("src", "dependencies/jsoncpp"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            s += [os.path.join(root, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".inl"))]
    return s


def _prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "*")), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def ensure_lib(flavour="asan", defines=()):
    fl = FLAVOURS[flavour]
    key = _hash(repo_sources(), repr(fl) + repr(defines))
    d = os.path.join(BUILD, "lib-%s-%s" % (flavour, key))
    lib = os.path.join(d, "libxmm.a")
    with Lock():
        if not os.path.exists(lib):
            tmp = d + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            cpps = [f for f in repo_sources() if f.endswith(".cpp") and "/test" not in os.path.relpath(f, REPO)]
            incs = ["-I" + os.path.join(REPO, i) for i in INCS]

            def one(f):
                o = os.path.join(tmp, os.path.relpath(f, REPO).replace("/", "_") + ".o")
                return o, sh([fl["cxx"]] + fl["flags"] + list(defines) + incs + ["-c", f, "-o", o])
            with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, cpps))
            for o, r in rs:
                if r.returncode: raise CheckError("library does not compile:\n" + r.stdout[-4000:])
            r = sh(["ar", "rcs", os.path.join(tmp, "libxmm.a")] + [o for o, _ in rs])
            if r.returncode: raise CheckError(r.stdout)
            shutil.rmtree(d, ignore_errors=True); os.rename(tmp, d)
            _prune("lib-%s-" % flavour, 4)
    os.utime(d)
    return lib


# the operations that the scheduler takes over
WRAP = ["pthread_create", "pthread_join", "pthread_detach", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_timedwait",
        "pthread_cond_clockwait", "pthread_cond_signal", "pthread_cond_broadcast", "nanosleep", "clock_nanosleep", "usleep", "sched_yield"]
ATOMICS = ["__tsan_atomic%d_%s" % (b, o) for b in (8, 32, 64) for o in ("load", "store", "exchange")]


def scheduled(flavour, out):
    """object and linker options for drivers whose threads run under harness/sched.cpp"""
    o = out + ".sched.o"
    r = sh(["clang++", "-std=c++11", "-O1", "-g", "-w", "-fno-builtin", "-c", os.path.join(VERIF, "harness", "sched.cpp"), "-o", o] + (["-DATOMICS"] if flavour == "tsan" else []))
    if r.returncode: raise CheckError("scheduler does not compile:\n" + r.stdout[-3000:])
    return [o, "-static-libstdc++"] + ["-Wl,--wrap=" + w for w in WRAP + (ATOMICS if flavour == "tsan" else [])]


SCHEDULED = {"training"}


def ensure_driver(name, flavour="asan", defines=(), extra=()):
    fl = FLAVOURS[flavour]
    lib = ensure_lib(flavour, defines)
    hs = glob.glob(os.path.join(VERIF, "harness", "*.hpp")) + [os.path.join(VERIF, "harness", f + ".cpp") for f in [name] + (["sched"] if name in SCHEDULED else [])]
    key = _hash(hs, lib + repr(extra))
    out = os.path.join(os.path.dirname(lib), "drv-%s-%s" % (name, key))
    with Lock():
        if not os.path.exists(out):
            incs = ["-I" + os.path.join(REPO, i) for i in INCS] + ["-I" + os.path.join(VERIF, "harness")]
            r = sh([fl["cxx"]] + fl["flags"] + list(defines) + incs +
                   [os.path.join(VERIF, "harness", name + ".cpp"), lib, "-o", out + ".tmp"] + list(extra) + (scheduled(flavour, out) if name in SCHEDULED else []))
            if r.returncode: raise CheckError("driver %s does not compile:\n%s" % (name, r.stdout[-6000:]))
            os.rename(out + ".tmp", out)
    return out


# ------------------------------------------------------------------------ TLC
def errtext(out, n=3000):
    i = out.find("Semantic errors:")
    if i < 0: i = out.find("Error:")
    return out[i:i + n] if i >= 0 else out[-n:]


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        g = re.findall(r"([\d,]+) states generated", out)
        self.generated = int(m.group(1).replace(",", "")) if m else (int(g[-1].replace(",", "")) if g else 0)
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m: self.generated = int(m.group(1).replace(",", ""))
        self.ok = rc == 0


def tlc(module, cfg, args=(), env=None, timeout=600, workers=1, heap="1g"):
    """cfg: name of a .cfg in spec/ or the text of a configuration"""
    java = ensure_java()
    tmp = tempfile.mkdtemp(prefix="tlc-", dir=workdir())
    try:
        if "\n" in cfg:
            c = os.path.join(tmp, module + "_gen.cfg")
            open(c, "w").write(cfg)
        else:
            c = os.path.join(SPEC, cfg)
        cmd = ["timeout", str(timeout), "java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + tmp, "-DTLA-Library=" + SPEC,
               "-cp", ":".join([java, TLA, DEPS]), "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE", "-config", c] + list(args) + \
              [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        r = sh(cmd, env=dict(ENV, **(env or {})), cwd=tmp)
        return TLCResult(r.returncode, r.stdout, time.time() - t)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_work = None


def workdir():
    global _work
    if _work is None:
        os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
        _work = tempfile.mkdtemp(prefix="w-", dir=os.path.join(BUILD, "work"))
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def model_check(module, cfg, cover=True, timeout=600, workers=NCPU, heap="6g", args=(), env=None):
    r = tlc(module, cfg, args=list(args) + (["-coverage", "1"] if cover else []), timeout=timeout, workers=workers, heap=heap, env=env)
    if r.rc == 0: return r
    raise CheckError("TLC on %s/%s failed (rc %d):\n%s" % (module, cfg.split("\n")[0], r.rc, errtext(r.out)))


def action_counts(out):
    """per-action counts from TLC's coverage output: name -> (distinct, taken)"""
    res = {}
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        a, d, g = m.group(1), int(m.group(2)), int(m.group(3))
        o = res.get(a, (0, 0)); res[a] = (o[0] + d, o[1] + g)
    return res


def generate(module, cfg, num, depth, seed, timeout=300, procs=1, env=None):
    """random behaviours of the specification, as lists of operations"""
    def one(k):
        r = tlc(module, cfg, ["-simulate", "num=%d" % ((num + procs - 1) // procs), "-depth", str(depth + 3),
                              "-seed", str(seed * 1000 + k), "-deadlock"], timeout=timeout, env=env)
        if r.rc != 0: raise CheckError("generation from %s failed (rc %d):\n%s" % (module, r.rc, errtext(r.out)))
        scripts = []
        for line in r.out.split("\n"):
            if line.startswith('"@S'):
                scripts.append(json.loads(json.loads(line)[2:]))
        return scripts
    with ThreadPoolExecutor(procs) as ex: rs = list(ex.map(one, range(procs)))
    return [s for r in rs for s in r]


def enumerate_ops(module, cfg, timeout=600, env=None, workers=4, heap="4g"):
    """exhaustive exploration of a specification that prints what it finds"""
    r = tlc(module, cfg, timeout=timeout, env=env, workers=workers, heap=heap)
    if r.rc != 0: raise CheckError("exploration of %s failed (rc %d):\n%s" % (module, r.rc, errtext(r.out)))
    ops = [json.loads(json.loads(line)[2:]) for line in r.out.split("\n") if line.startswith('"@S')]
    if len(ops) != r.distinct: raise CheckError("%s: %d documents printed, %d states" % (module, len(ops), r.distinct))
    return ops, r


def run_driver(exe, scripts, env=None, timeout=600, procs=NCPU):
    """list of traces (list of JSON lines), one per script, in order"""
    if not scripts: return []
    procs = max(1, min(procs, len(scripts)))
    chunks = [scripts[i::procs] for i in range(procs)]

    def one(k):
        base = os.path.join(workdir(), "drv-%d-%s" % (k, os.urandom(4).hex()))
        with open(base + ".in", "w") as f:
            f.write("\n---\n".join("\n".join(json.dumps(o, separators=(",", ":")) for o in s) for s in chunks[k]) + "\n")
        r = sh(["timeout", str(timeout), exe, base + ".in", base + ".out"], env=dict(ENV, **(env or {})))
        if r.returncode != 0: raise CheckError("driver %s ended with %d:\n%s" % (exe, r.returncode, r.stdout[-3000:]))
        ts = []
        with open(base + ".out") as f:
            for line in f:
                if line.startswith('{"op":{"o":"Begin"}'): ts.append([])
                if not ts: raise CheckError("driver output does not start with Begin")
                ts[-1].append(line.rstrip("\n"))
        os.unlink(base + ".in"); os.unlink(base + ".out")
        if len(ts) != len(chunks[k]): raise CheckError("driver produced %d traces for %d scripts" % (len(ts), len(chunks[k])))
        return ts, r.stdout
    with ThreadPoolExecutor(procs) as ex: rs = list(ex.map(one, range(procs)))
    out = [None] * len(scripts)
    for k in range(procs):
        for j, t in enumerate(rs[k][0]): out[k + j * procs] = t
    global last_driver_log
    last_driver_log = "\n".join(r[1] for r in rs)
    return out


last_driver_log = ""
TRACE_CFG = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def validate(module, traces, cfg=TRACE_CFG, procs=NCPU, timeout=600, env=None, heap="2g"):
    """TLC trace validation. Returns (rejections, states): each rejection is
    (index of the trace, text)."""
    if not traces: return [], 0
    size = sum(sum(len(x) for x in t) for t in traces)
    procs = max(1, min(procs, len(traces), 1 + size // 400000))
    # balance by number of lines
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
    chunks = [[] for _ in range(procs)]; load = [0] * procs
    for i in order:
        k = load.index(min(load)); chunks[k].append(i); load[k] += sum(len(l) for l in traces[i])

    def one(k):
        idx = list(chunks[k]); rej = []; states = 0
        f = os.path.join(workdir(), "trace-%d-%s.ndjson" % (k, os.urandom(4).hex()))
        while idx:
            with open(f, "w") as g:
                for i in idx: g.write("\n".join(traces[i]) + "\n")
            r = tlc(module, cfg, env=dict(env or {}, TRACE=f), timeout=timeout, heap=heap)
            states += r.generated
            total = sum(len(traces[i]) for i in idx)
            if r.rc == 0: break
            if r.rc == 124: raise CheckError("trace validation timed out")
            m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
            if not m or ("TraceAccepted" not in r.out and "postcondition" not in r.out.lower() and "POSTCONDITION" not in r.out):
                raise CheckError("trace validation of %s failed (rc %d):\n%s" % (module, r.rc, errtext(r.out)))
            depth = int(m.group(1))  # = consumed lines + 1
            n = 0; bad = None
            for pos, i in enumerate(idx):
                if depth - 1 < n + len(traces[i]): bad = pos; break
                n += len(traces[i])
            if bad is None: raise CheckError("cannot locate the rejected trace:\n" + r.out[-3000:])
            info = [l for l in r.out.split("\n") if "REJECT" in l]
            i = idx[bad]
            rej.append((i, depth - 1 - n, "\n".join(dict.fromkeys(info[-6:]))))
            idx = idx[bad + 1:]
            if len(rej) >= 3: break
        if os.path.exists(f): os.unlink(f)
        return rej, states
    with ThreadPoolExecutor(procs) as ex: rs = list(ex.map(one, range(procs)))
    return sorted(x for r, _ in rs for x in r), sum(s for _, s in rs)
