"""Building, running TLC and the engine, and reporting, shared by the checks."""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(ROOT, "specs")
TARGET = os.path.join(ROOT, "target")
WORK = os.path.join(ROOT, "work")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    pass


class Broke(Exception):
    """The code under test never returned, or took the driver down."""


def note(msg):
    print(msg, flush=True)


# --------------------------------------------------------------------------- building

def cargo_env():
    env = dict(os.environ)
    env.update(PATH="/root/.cargo/bin:" + env.get("PATH", ""), RUSTUP_TOOLCHAIN="1.70.0",
               CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET)
    env.pop("RUSTFLAGS", None)
    return env


def source_stamp():
    """Content hash of everything a build depends on (times are not to be trusted)."""
    h = hashlib.sha256()
    roots = [REPO + "/programs", REPO + "/lib", ROOT + "/harness"]
    files = [REPO + "/Cargo.toml"]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".lock"))]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


# binary: crate of the harness it belongs to
BINS = dict.fromkeys("engine swap heap book oracle loader create registry access chain ts rc rcreg rcmk cache chainf sending confirm snapshot".split(), "engine")
CRATES = {"engine": ["openbook-v2"]}
SETUP = list(BINS)


def build(name="engine"):
    """Builds one binary; the library below it is rebuilt when any source changed."""
    os.makedirs(TARGET, exist_ok=True)
    crate = BINS[name]
    with open(os.path.join(TARGET, ".lock-" + crate), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp_file = os.path.join(TARGET, ".stamp-" + name)
        stamp = source_stamp()
        binary = os.path.join(TARGET, "debug", name)
        if os.path.exists(stamp_file) and open(stamp_file).read() == stamp and os.path.exists(binary):
            return binary
        where = os.path.join(ROOT, "harness", crate)
        env = cargo_env()
        below = os.path.join(TARGET, ".cleaned-" + crate)
        if not os.path.exists(below) or open(below).read() != stamp:
            for c in CRATES[crate] + [crate]:
                subprocess.run(["cargo", "clean", "--offline", "-p", c], cwd=where, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            with open(below, "w") as f:
                f.write(stamp)
        if os.path.exists(stamp_file):
            os.remove(stamp_file)
        r = subprocess.run(["cargo", "build", "--offline", "--bin", name], cwd=where, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("building %s failed:\n%s" % (name, r.stdout[-3000:]))
        with open(stamp_file, "w") as f:
            f.write(stamp)
        return binary


# --------------------------------------------------------------------------- TLC

class Tlc:
    """One TLC run: what it explored and, if an invariant broke, the states it printed."""

    def __init__(self, module, env, workers=CORES, timeout=800, cont=False, meta=None, cfg=None, mem="4g"):
        meta = meta or os.path.join(WORK, "tlc-%d-%s-%x" % (os.getpid(), module, random.getrandbits(32)))
        full = dict(os.environ)
        full.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final"]
        if cfg:
            cmd += ["-config", cfg]
        if cont:
            cmd.append("-continue")
        cmd.append(module + ".tla")
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPECS, env=full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s did not finish in %d s" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        self.wall = time.time() - t
        self.out = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", self.out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.broken = re.findall(r"Invariant (\S+) is violated", self.out)
        self.clean = "Model checking completed. No error has been found" in self.out
        if not self.clean and not self.broken:
            self.error = self.out[-2500:]
        elif re.search(r"Error: (?!Invariant|The behavior|Invariant)", self.out):
            self.error = self.out[-2500:]
        else:
            self.error = None

    def prints(self, tag):
        """Values printed as <<"tag", "text">>."""
        return re.findall(r'<<"%s", "(.*?)">>' % tag, self.out)


def parallel(jobs):
    with ThreadPoolExecutor(CORES) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def run(cmd, timeout=600, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("%s did not finish in %d s" % (" ".join(cmd[:3]), timeout))
    if r.returncode in (77, 78, -4, -6, -7, -11) and "memory allocation of" not in r.stderr:
        raise Broke("%s ended with %d: %s" % (" ".join(cmd), r.returncode, r.stderr[-2000:]))
    if r.returncode != 0:
        raise ToolError("%s ended with %d: %s" % (" ".join(cmd[:6]), r.returncode, (r.stdout + r.stderr)[-2000:]))
    return r.stdout


# --------------------------------------------------------------------------- validating executions

FILE = re.compile(r"^/\\ file = (\d+)$", re.M)
BAD = re.compile(r"^/\\ bad = <<(\d+),\s*(\{[^}]*\})", re.M)
UNREAD = re.compile(r"^/\\ bad = <<\"unread\">>", re.M)


def verdicts(out):
    """The executions TLC refused, and those it could not evaluate, from the states it printed."""
    found, started = set(), set()
    for s in re.split(r"^State \d+:[^\n]*\n", out, flags=re.M)[1:]:
        s = s.split("\n\n")[0]
        f = FILE.search(s)
        if not f:
            continue
        b = BAD.search(s)
        if b:
            found.add((int(f.group(1)), int(b.group(1)), re.sub(r"\s+", " ", b.group(2))))
        elif UNREAD.search(s):
            started.add(int(f.group(1)))
    return sorted(found), sorted(started - set(x[0] for x in found))


def validate(module, prop, traces, count, env=None, timeout=700):
    """TLC judges every recorded execution. Returns ([(file, line, aspects)], number judged)."""
    dropped = []
    for attempt in range(5):
        e = dict(PROP=prop, TRACES=traces, N=count)
        e.update(env or {})
        t = Tlc(module, e, timeout=timeout, cont=True, mem="10g")
        found, stuck = verdicts(t.out)
        if t.broken and not found:
            raise ToolError("TLC refused an execution, but not recognisably:\n" + t.out[-2500:])
        if not found and t.error is None and not dropped and t.distinct != 2 * count:
            raise ToolError("TLC judged %d of %d executions" % (t.distinct - count, count))
        if found or (t.error is None and not dropped):
            return found, max(0, t.distinct - count)
        if t.error is None:
            break
        # an execution TLC cannot evaluate: judge the others without it
        if not stuck:
            break
        for k in stuck:
            p = os.path.join(traces, "%d.ndjson" % k)
            text = open(p).read()
            dropped.append((k, text.count("\n"), '{"no state of the specification"}'))
            os.rename(p, p + ".whole")
            with open(p, "w") as f:
                f.write(text.split("\n")[0] + "\n")
    if not dropped or "java.lang.OutOfMemoryError" in t.out:
        raise ToolError("TLC could not judge the executions:\n%s" % (t.error or ""))
    # they show something that is no state of the specification
    return dropped, max(0, t.distinct - count)


# --------------------------------------------------------------------------- a check

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.detail = {}
        self.assumptions = []
        self.violations = []
        self.dir = os.path.join(WORK, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.known = known_findings(prop)

    def path(self, *p):
        d = os.path.join(self.dir, *p)
        os.makedirs(d, exist_ok=True)
        return d

    def model(self, t, what):
        """Counts one model-checking run; a property that fails on the model is an error of ours."""
        if t.error or t.broken:
            raise ToolError("the model %s does not satisfy %s:\n%s" % (what, t.broken, t.out[-3000:]))
        self.states += t.distinct
        self.transitions += t.generated

    def violation(self, what, replay):
        """replay: text of a file that documents the failing execution."""
        key = hashlib.sha256(replay.encode()).hexdigest()[:12]
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
        p = os.path.join(WORK, "replay", "%s-%s.ndjson" % (self.prop, key))
        with open(p, "w") as f:
            f.write(replay)
        self.violations.append((what, p))

    def judge(self, module, traces, count, env=None, label=None):
        if count == 0:
            raise ToolError("no executions were recorded")
        found, judged = validate(module, self.prop, traces, count, env)
        self.traces += judged if not found else count
        for f, line, aspects in found[:20]:
            whole = os.path.join(traces, "%d.ndjson.whole" % f)
            lines = open(whole if os.path.exists(whole) else whole[:-6]).read().splitlines()
            shown = lines[line - 1] if line <= len(lines) else ""
            first = json.loads(lines[0]).get("a", {})
            self.violation("%s: %s at line %d of execution %s: %s" %
                           (module, aspects, line, json.dumps(first.get("id", f)), shown[:600]),
                           "\n".join(lines[:line]) + "\n" + json.dumps({"verdict": aspects, "line": line}) + "\n")
        return found

    def finish(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   steps_of_those_traces=self.steps, samples=self.samples[:6])
        cov.update(self.detail)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            note("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            for what, p in self.violations[:5]:
                note(what)
            note("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        note("%s held: %d model states, %d transitions, %d executions (%d steps), %.1f s" %
             (self.prop, self.states, self.transitions, self.traces, self.steps, time.time() - self.t0))
        return 0


def known_findings(prop):
    """Entries of known-findings.jsonl that are neither fixed nor of another property."""
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), what=m.group(3).strip()))
    return out
