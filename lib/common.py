"""Shared machinery: building the tree under observation, compiling, reference execution,
execution under monitors, verdicts, known findings, evidence."""
import atexit, hashlib, json, os, queue, random, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("C2W_REPO", "/repo")
BUILD = os.environ.get("C2W_BUILD", os.path.join(VERIF, ".build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = int(os.environ.get("C2W_JOBS", str(os.cpu_count() or 4)))
REPLAYS = os.path.join(VERIF, "evidence", "replay")

CARGO_ENV = dict(os.environ)
CARGO_ENV.update({
    "PATH": "/usr/local/sbin:/usr/local/bin:/root/.cargo/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/root", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0",
    "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_BUILD_OVERRIDE_OPT_LEVEL": "1", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
})
for _k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUST_LOG"):
    CARGO_ENV.pop(_k, None)

RUN_ENV = dict(os.environ)
RUN_ENV.update({"RUST_BACKTRACE": "0", "PATH": CARGO_ENV["PATH"]})
RUN_ENV.pop("RUST_LOG", None)


class HarnessError(Exception):
    pass


def build():
    """Build the compiler from the working tree, outside it. Returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(CARGO_ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    p = subprocess.run(["cargo", "build", "--locked", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise HarnessError("build failed:\n" + p.stdout[-4000:])
    return os.path.join(BUILD, "target", "debug", "c_to_wasm_compiler")


def digest(s):
    if isinstance(s, str):
        s = s.encode("utf8", "surrogateescape")
    return hashlib.sha256(s).hexdigest()[:16]


# ---------------------------------------------------------------- flag configurations
OPT_AXES = [("opt-tailcall", "T"), ("opt-unreachable-procedure", "U"), ("opt-stack-allocation", "S")]


def all_configs():
    r = []
    for bits in range(8):
        flags, name = [], ""
        for i, (f, ch) in enumerate(OPT_AXES):
            on = not (bits >> i) & 1
            flags.append(("--" + f) if on else ("--no" + f))
            name += ch if on else "-"
        r.append((name, flags))
    return r


CONFIGS = all_configs()
CONFIG = dict(CONFIGS)
DEFAULT = ("default", [])


class Scratch:
    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="c2w.", dir=base)
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.n = 0
        self.lock = threading.Lock()

    def path(self, suffix):
        with self.lock:
            self.n += 1
            n = self.n
        return os.path.join(self.dir, f"f{n}{suffix}")


class CompileResult:
    __slots__ = ("rc", "err", "wasm", "out_exists", "timeout", "hang")


class Compiler:
    def __init__(self, binary, scratch):
        self.bin = binary
        self.s = scratch

    CPU = 45  # seconds of CPU; no program of the suite needs more than a few

    def compile_file(self, path, flags=(), timeout=200, env=None):
        r = CompileResult()
        r.hang = False
        r.wasm = self.s.path(".wasm")
        r.timeout = False
        try:
            e = dict(RUN_ENV)
            e["RUST_LOG"] = "error"
            if env:
                e.update(env)
            p = subprocess.run(["prlimit", f"--cpu={self.CPU}:{self.CPU + 5}", self.bin, path, "-o", r.wasm, *flags], cwd=REPO, env=e,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            r.rc = p.returncode
            r.hang = p.returncode == -signal.SIGXCPU
            r.err = (p.stderr + p.stdout).decode("utf8", "replace")[-2000:]
        except subprocess.TimeoutExpired:
            r.rc, r.err, r.timeout = None, "compile timeout", True
        r.out_exists = os.path.exists(r.wasm)
        return r


class Worker:
    """A node process running lib/worker.mjs."""

    def __init__(self):
        self.start()

    def start(self):
        env = dict(RUN_ENV)
        env["C2W_RUNTIME"] = os.path.join(REPO, "runtime")
        self.p = subprocess.Popen(["node", "--stack-size=3000", os.path.join(VERIF, "lib", "worker.mjs")], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=VERIF)

    def run(self, job, timeout=120):
        """Returns the worker's report, or {'inconclusive': ...} when the host process failed."""
        timer = threading.Timer(timeout, self.p.kill)
        timer.start()
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        finally:
            timer.cancel()
        if not line:
            err = ""
            try:
                self.p.kill()
                err = self.p.stderr.read()[-500:]
            except Exception:
                pass
            self.start()
            return {"inconclusive": "worker died or watchdog: " + err}
        r = json.loads(line)
        if "harness" in r:
            return {"inconclusive": "worker exception: " + r["harness"]}
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Pool:
    """JOBS threads; each evaluation gets exclusive use of one node worker."""

    def __init__(self, jobs=JOBS):
        self.jobs = jobs
        self.q = queue.Queue()
        self.workers = []
        self.ex = ThreadPoolExecutor(jobs)
        for _ in range(jobs):
            w = Worker()
            self.workers.append(w)
            self.q.put(w)
        atexit.register(self.close)

    def execute(self, job, timeout=120):
        w = self.q.get()
        try:
            return w.run(job, timeout)
        finally:
            self.q.put(w)

    def map_until(self, fn, items, stop):
        """Lazily map fn over items with bounded lookahead; `stop()` ends the run early."""
        from collections import deque
        pend = deque()
        it = iter(items)
        done = False
        while True:
            while not done and len(pend) < self.jobs * 2:
                if stop():
                    done = True
                    break
                try:
                    x = next(it)
                except StopIteration:
                    done = True
                    break
                pend.append(self.ex.submit(fn, x))
            if not pend:
                return
            yield pend.popleft().result()

    def close(self):
        for w in self.workers:
            w.close()
        self.workers = []
        self.ex.shutdown(wait=False)


# ---------------------------------------------------------------- reference (clang + sanitizers, gcc as second opinion)
REF_FLAGS = ["-std=gnu99", "-w", "-fsigned-char", "-ffp-contract=off", "-fno-builtin", "-O0", "-x", "c"]
# undefined behaviour that the compiler folds away before the sanitizer can see it
WUB = ["-Wno-everything", "-Wshift-count-overflow", "-Wshift-count-negative", "-Winteger-overflow", "-Wdivision-by-zero"]
CLANG = ["clang", *[x for x in REF_FLAGS if x != "-w"], *WUB]
GCC = ["gcc", *REF_FLAGS]
SAN = "-fsanitize=undefined,float-cast-overflow,float-divide-by-zero"


class Reference:
    """Result of the reference execution. kind: ok | ub (program not UB-free) | unspecified (gcc and
    clang differ) | reject | inconclusive"""
    __slots__ = ("kind", "out", "exit", "msg")


def _run(exe, args, timeout):
    env = dict(RUN_ENV)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=253"
    env["UBSAN_OPTIONS"] = "exitcode=252"
    return subprocess.run([exe, *args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)


# strict: the program is a variation nobody has vetted. It has to be free of doubtful constructs and of reads of
# uninitialised memory as well, and to end quickly.
WSTRICT = ["-Wall", "-Wextra", "-Wpointer-arith", "-Wwrite-strings", "-Wno-" + " -Wno-".join(
    "unused unused-but-set-variable unused-but-set-parameter unused-parameter unused-variable unused-value unused-function unused-label parentheses sign-compare misleading-indentation implicit-fallthrough empty-body "
    "type-limits dangling-else bool-compare int-in-bool-context logical-not-parentheses tautological-compare char-subscripts format-overflow missing-field-initializers switch return-local-addr maybe-uninitialized write-strings "
    "duplicate-decl-specifier logical-op duplicated-branches stringop-overflow stringop-overread array-bounds aggressive-loop-optimizations enum-compare overflow".split())]


def strict_reference(scratch, path, args):
    """Reason why the program is not usable as a strict observation, or None."""
    ws = " ".join(WSTRICT).split()
    p = subprocess.run(["gcc", "-std=gnu99", "-fsyntax-only", "-Werror", *ws, "-x", "c", path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30, env=RUN_ENV)
    if p.returncode:
        return "reject", p.stdout.decode("utf8", "replace")
    exe = scratch.path(".msan")
    try:
        # each sanitizer alone: the tables of one must not come between the objects and red zones of the other
        for san in ("memory", "address"):
            p = subprocess.run(["clang", *REF_FLAGS, f"-fsanitize={san}", "-fno-sanitize-recover=all", "-include", os.path.join(VERIF, "lib", "strict.h"), path, "-o", exe], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30, env=RUN_ENV)
            if p.returncode:
                return "reject", p.stdout.decode("utf8", "replace")
            p = _run(exe, args, 2)
            if p.returncode < 0 or b"Sanitizer" in p.stderr:
                return "ub", p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return "inconclusive", "reference timeout"
    finally:
        if os.path.exists(exe):
            os.unlink(exe)
    return None


def reference(scratch, path, args=(), sanitize=True, timeout=15, second=True, defines=(), strict=False):
    r = Reference()
    if strict:
        r.out, r.exit, r.msg = "", None, ""
        bad = strict_reference(scratch, path, args)
        if bad:
            r.kind, r.msg = bad
            return r
    r.out, r.exit, r.msg = "", None, ""
    exe, exe2 = scratch.path(".ref"), scratch.path(".ref2")
    defs = [f"-D{d}" for d in defines]
    try:
        cmd = CLANG + (["-fsanitize=address", SAN, "-fno-sanitize-recover=all"] if sanitize else []) + defs + [path, "-o", exe]
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=RUN_ENV)
        if p.returncode != 0:
            r.kind, r.msg = "reject", p.stdout.decode("utf8", "replace")[:800]
            return r
        if b": warning: " in p.stdout:
            r.kind, r.msg = "ub", p.stdout.decode("utf8", "replace")[:800]
            return r
        p = _run(exe, args, timeout)
        if p.returncode < 0 or b"runtime error" in p.stderr or b"Sanitizer" in p.stderr:
            r.kind, r.msg = "ub", p.stderr.decode("utf8", "replace")[:800]
            return r
        r.kind, r.exit, r.out = "ok", p.returncode, p.stdout.decode("latin1")
        if second:
            q = subprocess.run(GCC + defs + [path, "-o", exe2], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=RUN_ENV)
            if q.returncode != 0:
                r.kind, r.msg = "reject", q.stdout.decode("utf8", "replace")[:800]
                return r
            q = _run(exe2, args, timeout)
            if q.returncode != p.returncode or q.stdout != p.stdout:
                r.kind, r.msg = "unspecified", "gcc and clang disagree"
        return r
    except subprocess.TimeoutExpired:
        r.kind, r.msg = "inconclusive", "reference timeout"
        return r
    finally:
        for f in (exe, exe2):
            try:
                os.unlink(f)
            except OSError:
                pass


# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)


# ---------------------------------------------------------------- check driver
class Check:
    """Collects observations of one check and turns them into verdict + evidence."""

    def __init__(self, prop, rule, level="exploration", quick_s=40, thorough_s=600):
        self.prop = prop
        self.rule = rule
        self.level = level
        self.t0 = time.time()
        self.budget = float(os.environ.get("C2W_BUDGET", quick_s if TIER == "quick" else thorough_s))
        self.violations = []
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.inconclusive = []
        self.cov = {}
        self.known = []
        self.known_sigs = {}
        self.assumptions = []
        self.scratch = Scratch()
        self.rng = random.Random(f"{prop}:{SEED}")
        try:
            self.bin = build()
        except HarnessError as e:
            print(str(e))
            self.write_evidence()
            sys.exit(2)
        self.cc = Compiler(self.bin, self.scratch)
        self.tstart = time.time()
        self._lock = threading.Lock()

    def left(self):
        return self.budget - (time.time() - self.tstart)

    def count(self, key, n=1):
        with self._lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def peak(self, key, v):
        with self._lock:
            self.cov[key] = max(self.cov.get(key, v), v)

    def observe(self, key, nontrivial=True):
        with self._lock:
            self.evals += 1
            if nontrivial:
                self.distinct.add(key if isinstance(key, str) and len(key) <= 16 else digest(str(key)))

    def sample(self, s, limit=4):
        with self._lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def unsure(self, why):
        with self._lock:
            self.inconclusive.append(why)

    def violate(self, what, detail, files):
        """Record a violation; `files` maps name -> content, saved so that it can be replayed."""
        with self._lock:
            n = len(self.violations)
            if n >= 5:
                self.violations.append((what, None))
                return
            d = os.path.join(REPLAYS, f"{self.prop}-{SEED}-{n}")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            for k, v in files.items():
                mode = "wb" if isinstance(v, bytes) else "w"
                with open(os.path.join(d, k), mode) as f:
                    f.write(v)
            with open(os.path.join(d, "report.txt"), "w") as f:
                f.write(f"property {self.prop}\nseed {SEED} tier {TIER}\n{what}\n\n{detail}\n")
            self.violations.append((what, d))

    def write_evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.cov)
        cov["inconclusive"] = len(self.inconclusive)
        if self.inconclusive:
            cov["inconclusive_examples"] = self.inconclusive[:3]
        cov["known_findings_reproduced"] = self.known
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self, min_evals=1):
        self.write_evidence()
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for what, d in self.violations[:5]:
            print(f"VIOLATION property={self.prop} replay={d}")
            print("  " + what.replace("\n", "\n  ")[:1500])
        if self.violations:
            sys.stdout.flush()
            os._exit(1)
        if self.evals < min_evals or not self.distinct:
            print(f"INCONCLUSIVE: only {self.evals} evaluations observed ({len(self.inconclusive)} inconclusive): {self.inconclusive[:3]}")
            sys.stdout.flush()
            os._exit(3)
        print(f"OK property={self.prop} evaluations={self.evals} distinct={len(self.distinct)} inconclusive={len(self.inconclusive)} "
              + " ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, (int, float))))
        sys.stdout.flush()
        os._exit(0)
