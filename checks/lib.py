"""Shared machinery of the checks: building the drivers from /repo, running TLC,
reporting violations and writing evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GEOMAP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The check itself cannot answer (build failure, TLC failure): exit code 2."""
    out = ""


RUNNING, STOP = set(), []


def stop_all():
    """A violation was found: end everything that is still running."""
    STOP.append(1)
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def spawn(*a, **kw):
    if STOP:
        raise CheckError("stopped")
    p = subprocess.Popen(*a, text=True, errors="replace", start_new_session=True, **kw)
    RUNNING.add(p)
    return p


def collect(p, timeout):
    """(return code, stdout, stderr); 124 after the timeout."""
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return 124, out, err
    finally:
        RUNNING.discard(p)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------- building
BASE = ["-std=c++14", "-DNDEBUG", "-w", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"]


def sh(cmd, timeout, **kw):
    rc, out, _ = collect(spawn(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw), timeout)
    return rc, out


def build(work, name, sources, flags=(), libs=(), opt=("-O1", "-fsanitize=address"), cxx="g++"):
    """Compile sources (paths) in parallel and link them to work/name."""
    objs, jobs = [], []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for i, s in enumerate(sources):
            o = os.path.join(work, "%s_%d.o" % (name, i))
            objs.append(o)
            jobs.append(ex.submit(sh, [cxx, *BASE, *opt, *flags, "-c", s, "-o", o], 600))
        for s, j in zip(sources, jobs):
            rc, out = j.result()
            if rc:
                log(out[-3000:])
                raise CheckError("compiling %s failed" % s)
    exe = os.path.join(work, name)
    rc, out = sh([cxx, *opt, *objs, "-o", exe, *libs], 300)
    if rc:
        log(out[-3000:])
        raise CheckError("linking %s failed" % name)
    return exe


def geomap_sources():
    d = os.path.join(REPO, "src", "geomap")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cxx")]


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1")
# Python drivers: fresh memory is filled with 0x5a, so that uninitialised members show
PYENV = dict(ENV, PYTHONMALLOC="malloc", MALLOC_PERTURB_="165")


def run_driver(exe, args, timeout, **kw):
    """Returns (returncode, stdout, stderr)."""
    rc, out, err = collect(spawn([*([exe] if isinstance(exe, str) else exe), *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=ENV if isinstance(exe, str) else PYENV, **kw), timeout)
    return (rc, "", "TIMEOUT") if rc == 124 else (rc, out, err)


# ------------------------------------------------------------------------ TLC
def tlc(work, module, cfg=None, env=None, timeout=800, workers=1, heap="2g", args=()):
    """Runs TLC on spec/module; returns its output. Raises CheckError if TLC itself fails
    (parse or evaluation error, out of memory); invariant violations are in the output."""
    cfg = cfg or module.replace(".tla", ".cfg")
    for attempt in range(2):
        meta = tempfile.mkdtemp(prefix="tlc", dir=work)
        cmd = ["java", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap,
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               *args, "-config", cfg, module]
        rc, out = sh(cmd, timeout, cwd=SPEC, env=dict(os.environ, **(env or {})))
        shutil.rmtree(meta, ignore_errors=True)
        if rc == 0 or "Invariant" in out and "is violated" in out or "Action property" in out and "is violated" in out:
            return out
        if STOP:
            raise CheckError("stopped")
        log("TLC returned %d (attempt %d)\n%s" % (rc, attempt, out[-2500:]))
        if rc == 124 or EVALUATION.search(out):
            break       # trying again would not help
    e = CheckError("TLC failed on %s" % module)
    e.out = out
    raise e


# TLC could not evaluate the specification: a recorded value lies outside of what is specified
EVALUATION = re.compile(r"Attempted to |Overflow when computing|was not in the domain|of the form (conjunction|CHOOSE)|In evaluation, the identifier")


def check_trace(work, module, trace, timeout, heap="2g"):
    """TLC on a recorded trace. Returns (records, [raw error], text of the record outside of
    what is specified or None)."""
    try:
        o = tlc(work, module, env=dict(TRACE=trace), timeout=timeout, heap=heap)
    except CheckError as e:
        errs = tlc_tuples(e.out, "ERR")
        if errs:
            return 0, errs, None
        if EVALUATION.search(e.out):
            k = re.findall(r"^(?:/\\ )?l = (\d+)", e.out, re.M)
            return 0, [], (int(k[-1]) if k else 0, e.out[-1500:])
        raise
    done = tlc_tuples(o, "DONE")
    if not done:
        log(o[-2000:])
        raise CheckError("TLC did not finish the trace")
    return int(done[0].split(",")[0]), tlc_tuples(o, "ERR"), None


def start_models(chk, ex, cfg):
    """Exhaustive model checking of cfg["models"] in the pool ex."""
    quick = chk.tier == "quick"
    res = []
    for mod in cfg.get("models", []):       # module.tla or module.tla:configuration
        mod, base = mod.split(":") if ":" in mod else (mod, mod[:-4])
        c = base + (".cfg" if quick else "_thorough.cfg")
        if not os.path.exists(os.path.join(SPEC, c)):
            c = base + ".cfg"
        res.append((c[:-4], ex.submit(tlc, chk.work, mod, c, None, 800 if quick else 5000, 2 if quick else 4, "4g")))
    return res


def finish_models(chk, models):
    for mod, f in models:
        o = f.result()
        d, g = tlc_stats(o)
        if "is violated" in o:
            raise CheckError("the model %s violates its own properties:\n%s" % (mod, o[-2000:]))
        chk.cov["states"] += d
        chk.cov["transitions"] += g
        chk.cov.setdefault("models", {})[mod] = dict(distinct=d, generated=g)


def tlc_stats(out):
    """(distinct states, generated states) of a TLC run."""
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        m2 = re.findall(r"The number of states generated: (\d+)", out)
        return (0, int(m2[-1])) if m2 else (0, 0)
    return int(m[-1][1]), int(m[-1][0])


def tlc_tuples(out, tag):
    """Values printed with PrintT(<<tag, ...>>), as lists of raw strings."""
    res = []
    for m in re.finditer(r"<<\s*\"%s\",(.*?)>>(?=\s*(?:\n|$))" % tag, out, re.S):
        res.append(re.sub(r"\s+", " ", m.group(1)).strip())
    return res


# -------------------------------------------------------------------- results
class Check:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="geoverif_%s_" % pid)
        self.violations = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.nrep = 0

    def limit(self):
        """Seconds left: quick checks answer within 14 minutes."""
        return max(20, (820 if self.tier == "quick" else 6000) - (time.time() - self.t0))

    def replay_file(self, text, suffix="txt"):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        self.nrep += 1
        f = os.path.join(d, "%s_%s_%d_%d.%s" % (self.pid, self.tier, self.seed, self.nrep, suffix))
        with open(f, "w") as h:
            h.write(text)
        return f

    def violation(self, what, replay_text, suffix="txt", key=None):
        """key: identifies the failing input/site for the known-findings file."""
        if key is not None:
            for k in known_findings():
                if k.get("property") == self.pid and k.get("key") == key:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k.get("what", key)))
                    return
        if len(self.violations) < 20:
            f = self.replay_file(replay_text, suffix)
            print("VIOLATION property=%s replay=%s" % (self.pid, f))
            print("  " + what.replace("\n", "\n  ")[:1500], flush=True)
        self.violations.append(what)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        log("%s: %s in %.1f s" % (self.pid, "VIOLATED" if self.violations else "held", ev["wall_s"]))
        return 1 if self.violations else 0


def known_findings():
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f)).get("findings", [])
