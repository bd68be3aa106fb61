"""Shared machinery: builds from /repo's working tree, TLC runs, trace files,
evidence and violation reports."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = os.cpu_count() or 4
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
P = 46337  # prime used by trace validation, see spec/Num.tla


class CheckError(Exception):
    """The check could not decide (build failure, tool failure)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


# ------------------------------------------------------------------ building

OMP = ["-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP",
       "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP"]
CPP = ["-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP",
       "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_CPP"]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def headers_hash():
    """Content of every header of the code under test and of the harness."""
    if "h" not in _hdr:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "src"), HARNESS):
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith((".hpp", ".h", ".inl", ".inc", ".ipp", ".cuh", ".hh")):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(_read(p))
        _hdr["h"] = h.hexdigest()
    return _hdr["h"]


class Unit:
    """One translation unit. src: path, or generated text with a name."""

    def __init__(self, src, defs=(), backend=OMP, text=None, opt="-O1", lang="c++", inc=()):
        self.src, self.defs, self.backend, self.text = src, list(defs), backend, text
        self.opt, self.lang, self.inc = opt, lang, list(inc)

    def cmd(self, src, obj):
        if self.lang == "f":
            return ["gfortran", "-O1", "-w", "-c", src, "-o", obj]
        return (["g++", "-std=c++17", self.opt, "-w", "-DNDEBUG", "-fopenmp"] + self.backend
                + ["-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "src/cuda"), "-I", HARNESS]
                + sum((["-I", i] for i in self.inc), [])
                + self.defs + ["-c", src, "-o", obj])

    def key(self):
        h = hashlib.sha256()
        h.update(" ".join(self.cmd("S", "O")).encode())
        h.update(self.text.encode() if self.text is not None else _read(self.src))
        if self.lang != "f":
            h.update(headers_hash().encode())
        return h.hexdigest()[:32]


_slots = threading.BoundedSemaphore(NPROC)
_guard, _locks = threading.Lock(), {}


def compile_unit(u):
    """One object per distinct command and sources; builds running side by side share it."""
    key = u.key()
    with _guard:
        lock = _locks.setdefault(key, threading.Lock())
    with lock, _slots:
        return compile_key(u, key)


def compile_key(u, key):
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, key + ".o")
    if os.path.exists(obj):
        return obj
    src = u.src
    if u.text is not None:
        src = os.path.join(d, key + "_" + os.path.basename(u.src))
        with open(src + ".tmp%d" % os.getpid(), "w") as f:
            f.write(u.text)
        os.replace(src + ".tmp%d" % os.getpid(), src)
    tmp = obj + ".tmp%d.o" % os.getpid()
    r = sh(u.cmd(src, tmp))
    if r.returncode:
        raise CheckError("compilation of %s failed:\n%s" % (u.src, r.stderr[-3000:]))
    os.replace(tmp, obj)
    return obj


def build(name, units):
    """Compiles the units in parallel and links them; returns the executable."""
    t0 = time.time()
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(compile_unit, units))
    h = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s_%s" % (name, h))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh(["g++", "-fopenmp"] + objs + ["-lgfortran", "-o", tmp])
        if r.returncode:
            raise CheckError("link of %s failed:\n%s" % (name, r.stderr[-3000:]))
        os.replace(tmp, exe)
    print("built %s in %.1fs" % (name, time.time() - t0), flush=True)
    return exe


def fortran_units(names):
    """The reference kernels, generated from /repo/m4 (never from stale src/*.f)."""
    us = []
    for n in names:
        m4 = os.path.join(REPO, "m4", n + ".m4")
        r = sh(["m4", m4, "-I" + os.path.join(REPO, "m4")])
        if r.returncode:
            raise CheckError("m4 failed on %s: %s" % (n, r.stderr[-1000:]))
        us.append(Unit(n + ".f", text=r.stdout, lang="f"))
    return us


# ------------------------------------------------------------------ running

class Crash(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


PATIENCE = 1  # thorough runs wait longer for an answer


def run_harness(cmd, stdin=None, timeout=240, env=None, retries=1):
    """Runs a harness executable.  A crash or hang of the code under test is
    reported as Crash only when it happens again on a second run."""
    e = dict(os.environ)
    e.setdefault("OMP_NUM_THREADS", "4")
    e.setdefault("OMP_WAIT_POLICY", "passive")  # no spinning at barriers: the machine may be busy
    if env:
        e.update(env)
    last = None
    for _ in range(retries + 1):
        try:
            r = subprocess.run(cmd, input=stdin, text=True, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout * PATIENCE, env=e)
            if r.returncode == 0 and r.stdout.rstrip().endswith("DONE"):
                return r.stdout
            if r.returncode == 3:
                raise CheckError("harness protocol error: " + r.stderr[-500:])
            last = Crash("exit status %d" % r.returncode, (r.stdout[-600:], r.stderr[-600:]))
        except subprocess.TimeoutExpired as x:
            last = Crash("no answer in %ss" % (timeout * PATIENCE), ("", ""))
    raise last


# ------------------------------------------------------------------ numbers

def rational(x, maxden=2000000):
    """The rational a computed double stands for: the first continued-fraction
    convergent within rounding distance; None when there is none."""
    if x != x or x in (float("inf"), float("-inf")):
        return None
    if x == int(x):
        return (int(x), 1)
    tol = 4e-12 * max(1.0, abs(x))
    n0, d0, n1, d1 = 0, 1, 1, 0
    y = x
    for _ in range(40):
        a = int(y // 1)
        n0, d0, n1, d1 = n1, d1, a * n1 + n0, a * d1 + d0
        if d1 > maxden:
            return None
        if abs(n1 / d1 - x) <= tol:
            return (n1, d1)
        f = y - a
        if f == 0:
            return (n1, d1)
        y = 1.0 / f
    return None


_res_cache = {}


def residue(x):
    """Image in Z/P of the rational a double stands for; -1 if there is none."""
    r = _res_cache.get(x)
    if r is None:
        q = rational(x)
        r = -1 if q is None or q[1] % P == 0 else q[0] * pow(q[1], -1, P) % P
        if len(_res_cache) < 2000000:
            _res_cache[x] = r
    return r


def fres(n, d=1):
    return n * pow(d, -1, P) % P


# ------------------------------------------------------------------ TLC

class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=None, timeout=800, extra=(), heap="6g"):
    """Runs TLC on spec/<module>.tla.  Returns states/distinct/violated/output."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=_mk(os.path.join(BUILD, "tlc")))
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-cp", TLA, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers or NPROC), "-metadir", meta, "-config", (cfg or module + ".cfg")]
    cmd += list(extra) + [module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout * PATIENCE, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s exceeded %ss" % (module, timeout * PATIENCE))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    o = TlcResult()
    o.out, o.rc, o.wall = r.stdout, r.returncode, time.time() - t0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
    o.states, o.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    o.completed = "Model checking completed. No error has been found." in r.stdout
    o.violated = re.findall(r"Invariant (\S+) is violated", r.stdout) + \
        re.findall(r"Temporal properties were violated|Action property (\S+) is violated|Property (\S+) is violated", r.stdout)
    if not o.completed and not o.violated:
        raise CheckError("TLC on %s failed:\n%s" % (module, r.stdout[-4000:]))
    return o


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def write_json(path, obj):
    _mk(os.path.dirname(path))
    with open(path, "w") as f:
        json.dump(obj, f, separators=(",", ":"))
    return path


def last_state(out):
    """The text of the last state TLC printed in a counterexample."""
    i = out.rfind("\nState ")
    return out[i:i + 6000] if i >= 0 else out[-3000:]


# ------------------------------------------------------------------ a check

class Ctx:
    def __init__(self, pid, tier):
        global PATIENCE
        self.pid, self.tier = pid, tier
        PATIENCE = 8 if tier == "thorough" else 1
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.seq = 0
        self.lock = threading.Lock()
        self.samples = []
        self.violations = []
        self.notes = {}
        self.assumptions = []
        self.work = tempfile.mkdtemp(prefix=pid + "_", dir=_mk(os.path.join(BUILD, "work")))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def note(self, k, v):
        self.notes[k] = v

    def add(self, k, v):
        self.notes[k] = self.notes.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, detail):
        d = _mk(os.path.join(BUILD, "replay"))
        path = os.path.join(d, "%s_%d_%d.json" % (self.pid, os.getpid(), len(self.violations)))
        write_json(path, {"property": self.pid, "what": what, "detail": detail,
                          "seed": SEED, "tier": self.tier,
                          "reproduce": "VERIF_SEED=%d python3 bin/check.py %s --tier %s" % (SEED, self.pid, self.tier)})
        self.violations.append((what, path))
        print("FOUND %s: %s" % (self.pid, what), flush=True)

    # model checking of the specification itself
    def model(self, module, cfg=None, env=None, **kw):
        o = tlc(module, cfg, env, **kw)
        self.states += o.distinct
        self.transitions += o.states
        self.notes.setdefault("models", []).append(
            {"module": module, "cfg": cfg or module + ".cfg", "distinct_states": o.distinct,
             "states_generated": o.states, "wall_s": round(o.wall, 1)})
        if o.violated:
            raise CheckError("the specification %s violates its own property:\n%s" % (module, o.out[-4000:]))
        print("model %s (%s): %d distinct states, %.1fs" % (module, cfg or "", o.distinct, o.wall), flush=True)
        return o

    def expect_fail(self, module, cfg, env=None, **kw):
        """Negative control: a model with a known defect must have a counterexample."""
        o = tlc(module, cfg, env, **kw)
        if not o.violated:
            raise CheckError("negative control %s/%s has no counterexample" % (module, cfg))
        self.notes.setdefault("negative_controls", []).append(cfg)
        return o

    # validation of recorded executions
    def validate(self, module, trace, expect_states, ntraces, cfg=None, what="trace rejected", env=None, **kw):
        with self.lock:
            self.seq += 1
            path = os.path.join(self.work, "%s_%d.json" % (module, self.seq))
        write_json(path, trace)
        e = {"TRACE": path}
        e.update(env or {})
        o = tlc(module, cfg, e, **kw)
        with self.lock:
            self.states += o.distinct
            self.transitions += o.states
        if o.violated:
            o2 = tlc(module, cfg, e, **kw)  # TLC is deterministic; confirm before reporting
            if not o2.violated:
                raise CheckError("TLC verdict on %s not reproducible" % module)
            keep = os.path.join(_mk(os.path.join(BUILD, "replay")), "%s_%d_%s" % (self.pid, os.getpid(), os.path.basename(path)))
            if os.path.getsize(path) < 200e6:
                shutil.copy(path, keep)
            m = re.search(r"/\\ bad = (.*?)(?=\n/\\ |\n\n|\Z)", last_state(o.out), re.S)
            b = re.sub(r"\s+", " ", m.group(1)) if m else last_state(o.out)
            self.violation(what + ": " + b[:1500], {"bad": b, "trace": keep, "module": module})
            return False
        if o.distinct != expect_states:
            raise CheckError("%s: %d states explored, %d expected: trace not fully consumed"
                             % (module, o.distinct, expect_states))
        with self.lock:
            self.traces += ntraces
        os.unlink(path)
        print("validated %s: %d traces, %d states, %.1fs" % (module, ntraces, o.distinct, o.wall), flush=True)
        return True

    def validate_slices(self, module, items, weight, limit, trace_of, what, jobs=3, states=None, env=None):
        """Validates the items in slices of about the given weight, several at a time,
        heavy and light items spread evenly over the slices."""
        items = sorted(items, key=lambda c: -weight(c))
        k = max(1, -(-sum(map(weight, items)) // limit))
        slices = [s for s in (items[q::k] for q in range(k)) if s]
        room = threading.Semaphore(jobs + 1)
        ok = [True]

        def one(tr):
            try:
                if ok[0] and not self.validate(module, tr, sum((states or (lambda t: 1 + len(t["events"])))(t) for t in tr), len(tr), what=what, env=env,
                                               workers=max(2, NPROC // min(jobs, len(slices))), heap="6g"):
                    ok[0] = False
            finally:
                room.release()
        with cf.ThreadPoolExecutor(jobs) as ex:
            fs = []
            for s in slices:
                room.acquire()
                fs.append(ex.submit(one, trace_of(s)))
                if not ok[0]:
                    break
        for f in fs:
            f.result()
        return ok[0]

    def finish(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for what, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("%s %s: %s (%.1fs, %d states, %d traces)" %
              (self.pid, self.tier, "VIOLATED" if self.violations else "held",
               time.time() - self.t0, self.states, self.traces), flush=True)
        return 1 if self.violations else 0
