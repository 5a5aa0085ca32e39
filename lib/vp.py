"""Shared machinery of the checks: building blogc from /repo's working tree, running TLC on the
specification, validating recorded executions, and reporting."""
import fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, ".work")          # ignored by git
REPLAYS = os.path.join(ROOT, "replays")     # ignored by git
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------- building

def _tree_hash():
    h = hashlib.sha256()
    for top in ("src", "cmake"):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, top))):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                try:
                    with open(p, "rb") as fp:
                        h.update(fp.read())
                except OSError:
                    h.update(b"?")
                h.update(b"\1")
    for f in ("CMakeLists.txt", "config.h.in"):
        with open(os.path.join(REPO, f), "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()[:20]


VARIANTS = {
    # name: (cmake options, CFLAGS)
    "plain": (["-DBUILD_BLOGC_GIT_RECEIVER=ON", "-DBUILD_BLOGC_MAKE=ON", "-DBUILD_BLOGC_RUNSERVER=ON"], "-O1 -g"),
    "embedded": (["-DBUILD_BLOGC_MAKE_EMBEDDED=ON"], "-O1 -g"),
    "asan": (["-DBUILD_BLOGC_GIT_RECEIVER=ON", "-DBUILD_BLOGC_MAKE=ON", "-DBUILD_BLOGC_RUNSERVER=ON"],
             "-O1 -g -fsanitize=address -fno-omit-frame-pointer"),
}


def build(variant="plain"):
    """Builds /repo's current tree out of tree; returns {program: path}."""
    os.makedirs(WORK, exist_ok=True)
    key = _tree_hash()
    dest = os.path.join(WORK, "build-%s-%s" % (variant, key))
    with open(os.path.join(WORK, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dest, ".done")):
            # forget the builds of other trees
            olds = sorted((d for d in os.listdir(WORK) if d.startswith("build-%s-" % variant)),
                          key=lambda d: os.path.getmtime(os.path.join(WORK, d)))
            for d in olds[:-2]:
                shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
            shutil.rmtree(dest, ignore_errors=True)
            src = os.path.join(dest, "source")
            os.makedirs(src)
            for f in ("src", "cmake", "man"):
                shutil.copytree(os.path.join(REPO, f), os.path.join(src, f), symlinks=True)
            for f in ("CMakeLists.txt", "config.h.in", "LICENSE", "README.md"):
                shutil.copy(os.path.join(REPO, f), src)
            with open(os.path.join(src, "version.cmake"), "w") as fp:
                fp.write('set(BLOGC_VERSION "0.0.0")\n')
            opts, cflags = VARIANTS[variant]
            env = dict(os.environ, LC_ALL="C.UTF-8", CC="gcc", CFLAGS=cflags)
            for cmd in (["cmake", "-S", src, "-B", os.path.join(dest, "out"), "-G", "Ninja",
                         "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTING=OFF"] + opts,
                        ["ninja", "-C", os.path.join(dest, "out")]):
                p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode != 0:
                    log(p.stdout.decode(errors="replace")[-4000:])
                    raise CheckError("build of %s failed" % REPO)
            open(os.path.join(dest, ".done"), "w").close()
    progs = {}
    for d, dirs, files in os.walk(os.path.join(dest, "out")):
        for f in files:
            if f in ("blogc", "blogc-make", "blogc-runserver", "blogc-git-receiver"):
                p = os.path.join(d, f)
                if os.access(p, os.X_OK):
                    progs[f] = p
    if "blogc" not in progs:
        raise CheckError("no blogc was built")
    return progs


# --------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        self.states = self.distinct = 0
        m = None
        for m in re.finditer(r"^([\d,]+) states generated.*?([\d,]+) distinct states", out, re.M):
            pass
        if m:
            self.states = int(m.group(1).replace(",", ""))
            self.distinct = int(m.group(2).replace(",", ""))
        else:
            m = re.search(r"The number of states generated: (\d+)", out)
            if m:
                self.states = self.distinct = int(m.group(1))
        self.ok = rc == 0

    def printed(self, tag):
        """The JSON values printed as "TAG <json>" by the specification."""
        rv = []
        pre = '"%s ' % tag
        for line in self.out.splitlines():
            if line.startswith(pre):
                rv.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return rv


def tlc(module, cfg, env=None, workers=None, timeout=600, args=(), heap="6g", outfile=None):
    """Runs TLC; a crash of the tool is a CheckError, a violated property is in the result."""
    meta = tempfile.mkdtemp(prefix="vp-tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
               "-cp", TLA_CP, "tlc2.TLC", "-metadir", os.path.join(meta, "md"), "-noGenerateSpecTE",
               "-workers", str(workers or NCPU), "-config", cfg] + list(args) + [module]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s after %d s" % (module, timeout))
        out = p.stdout.decode(errors="replace")
        r = TlcResult(p.returncode, out, time.time() - t)
        if p.returncode not in (0, 10, 11, 12, 13):   # 10-13: assumption, deadlock, safety, liveness
            log(out[out.find("Starting..."):][-6000:])
            raise CheckError("TLC failed on %s (exit %d)" % (module, p.returncode))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


LANES = 32


def judge(module, cases, timeout=800, cfg="Trace.cfg", env=None, procs=1):
    """Validates recorded cases against the specification.  Returns (rejections, states)."""
    if not cases:
        return [], 0
    d = tempfile.mkdtemp(prefix="vp-cases-")
    try:
        p = os.path.join(d, "cases.ndjson")
        with open(p, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        # the named deviations that are listed as known findings (of any property: the specification of
        # one property is also used when another one is decided)
        known = " ".join(sorted(known_findings(None)))
        r = tlc(module + ".tla", cfg, env=dict({"VP_KNOWN": known}, **dict(env or {}, VP_CASES=p)), timeout=timeout)
        if not r.ok:
            log(r.out[-4000:])
            raise CheckError("TLC failed on %s" % module)
        if r.states != len(cases) + LANES:
            log(r.out[-4000:])
            raise CheckError("%s: %d cases, but %d were judged" % (module, len(cases), r.states - LANES))
        return r.printed("REJECT"), r.states
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------- running programs

def bl(b):
    """bytes (or str) to a list of integers, the specification's texts"""
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return list(b)


def unbl(l):
    return bytes(l)


def show(l):
    return bytes(l).decode("utf-8", "backslashreplace")


BASE_ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": "/nonexistent",
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"}


class Run:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(argv, stdin=b"", cwd=None, env=None, timeout=20, preexec=None, stdout=None, restore=True):
    """stdin: bytes or a file; stdout: None (recorded) or a file; restore: of the signals that Python ignores."""
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    try:
        feed = {"input": stdin} if isinstance(stdin, bytes) else {"stdin": stdin}
        p = subprocess.run(argv, stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE, cwd=cwd, env=e,
                           timeout=timeout, preexec_fn=preexec, restore_signals=restore, **feed)
        return Run(p.returncode, p.stdout or b"", p.stderr)
    except subprocess.TimeoutExpired as x:
        return Run(-999, x.stdout or b"", x.stderr or b"", True)


def pmap(f, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(f, items))


class Scratch:
    """A scratch directory, removed at the end."""

    def __init__(self, prefix="vp-"):
        self.path = tempfile.mkdtemp(prefix=prefix)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        subprocess.run(["chmod", "-R", "u+rwX", self.path], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.path, ignore_errors=True)


# --------------------------------------------------------------------------- known findings

def known_findings(prop):
    """The open findings of a property: {key: text}.  Lines: 'finding: property=<id> key=<key> <text>'"""
    rv = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.rstrip("\n"))
            if m and (prop is None or m.group(1) == prop):
                rv[m.group(2)] = m.group(3)
    return rv


# --------------------------------------------------------------------------- a check

class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.rng = random.Random("%s-%d-%s" % (prop, SEED, TIER))
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.samples = []
        self.states = self.transitions = self.traces = 0
        self.mc = []
        self.known = known_findings(prop)

    # -- specification level
    def model_check(self, module, cfg, minimum=1, timeout=600, args=(), workers=None, env=None, expect_ok=True):
        r = tlc(module + ".tla", cfg, timeout=timeout, args=args, workers=workers, env=env)
        if expect_ok and not r.ok:
            log(r.out[-6000:])
            raise CheckError("model checking %s with %s failed: the specification itself is broken" % (module, cfg))
        if r.distinct < minimum:
            raise CheckError("model checking %s explored only %d states" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.states
        self.mc.append({"module": module, "config": cfg, "states": r.states, "distinct": r.distinct,
                        "wall_s": round(r.wall, 1)})
        log("  TLC %s/%s: %d states, %d distinct, %.1fs" % (module, cfg, r.states, r.distinct, r.wall))
        return r

    # -- conformance
    def conform(self, module, cases, rerun, describe=None, batch=20000, maxviol=5, key=None, finding=None):
        """cases: recorded executions (with 'id'); rerun(case) executes the real code again and returns a
        fresh recording; finding(case, expected) -> key of a known finding or None."""
        n = 0
        # (TLC needs about 60 times the size of the recordings)
        parts, size = [[]], 0
        for c in cases:
            k = len(json.dumps(c, separators=(",", ":")))
            if parts[-1] and (len(parts[-1]) >= batch or size + k > 50e6):
                parts.append([])
                size = 0
            parts[-1].append(c)
            size += k
        for part in parts:
            t = time.time()
            rej, states = judge(module, part)
            self.states += states
            self.transitions += states
            self.traces += len(part)
            log("  %s: %d recorded executions judged, %d rejected, %.1fs" % (module, len(part), len(rej), time.time() - t))
            if not rej:
                continue
            byid = {c["id"]: c for c in part}
            again = []
            for r in rej[:80]:
                c2 = rerun(byid[r["id"]])
                if c2 is not None:
                    again.append(c2)
            rej2, states = judge(module, again)
            byid2 = {c["id"]: c for c in again}
            for r in rej2:
                c = byid2[r["id"]]
                k = finding(c, r["expected"]) if finding else None
                if k is not None and k in self.known:
                    self.known_hit(k)
                    continue
                if len(self.violations) < maxviol:
                    self.violation({"module": module, "case": c, "expected": r["expected"]},
                                   describe(c, r["expected"]) if describe else None)
                else:
                    self.violations.append(None)
        return n

    def known_hit(self, k):
        if not hasattr(self, "_hits"):
            self._hits = {}
        self._hits[k] = self._hits.get(k, 0) + 1

    def violation(self, data, text=None):
        os.makedirs(REPLAYS, exist_ok=True)
        n = len(self.violations) + 1
        p = os.path.join(REPLAYS, "%s-%s-%d.json" % (self.prop, TIER, n))
        data = dict(data, property=self.prop, seed=SEED, tier=TIER, text=text)
        with open(p, "w") as f:
            json.dump(data, f, indent=1, default=lambda o: o.decode("latin-1") if isinstance(o, bytes) else str(o))
            f.write("\n")
        self.violations.append(p)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        if text:
            log("    " + text.replace("\n", "\n    ")[:3000])

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self, **cov):
        for k, text in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        coverage = {}
        if self.level == "model_checking":
            coverage.update(states=self.states, transitions=self.transitions,
                            traces_validated_against_impl=self.traces)
        coverage.update(cov)
        if self.mc:
            coverage["model_checking_runs"] = self.mc
        coverage["samples"] = self.samples or ["none"]
        if getattr(self, "_hits", None):
            coverage["known_findings_hit"] = self._hits
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": coverage, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(p + ".tmp", p)
        log("%s: %s, %d executions validated, %d states, %.1fs" % (
            self.prop, "VIOLATED" if self.violations else "held", self.traces, self.states, time.time() - self.t0))
        return 1 if self.violations else 0
