"""Running blogc-make on generated sites, with a recording stand-in for blogc (harness/stub.c)."""
import hashlib, threading
from vp import *

_lock = threading.Lock()


def stub():
    """The compiled stand-in."""
    src = os.path.join(ROOT, "harness", "stub.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    p = os.path.join(WORK, "stub-" + h)
    with _lock:
        os.makedirs(WORK, exist_ok=True)
        if not os.path.exists(p):
            tmp = p + ".%d" % os.getpid()
            subprocess.run(["gcc", "-O1", "-o", tmp, src], check=True)
            os.rename(tmp, p)
    return p


def opt(x):
    return {"ok": x is not None, "v": bl(x) if x is not None else []}


def read_log(path, partial=False):
    """The calls of blogc that were recorded."""
    rv = []
    if os.path.exists(path):
        for line in open(path):
            if partial and not line.endswith("}\n"):
                break
            d = json.loads(line[1:])
            argv = [bytes.fromhex(a) for a in d["argv"]]
            c = {"print": None, "vars": [], "listing": False, "entry": None, "template": None, "out": None, "sources": [], "odd": [],
                 "made": d["made"], "rc": d["rc"], "lc": None if d["lc"] is None else bytes.fromhex(d["lc"]),
                 "tc": None if d["tc"] is None else bytes.fromhex(d["tc"])}
            i, listed = 0, False
            pos = []
            while i < len(argv):
                a = argv[i]
                if a[:1] == b"-" and a[1:2] in (b"D", b"e", b"p", b"t", b"o"):
                    v = a[2:]
                    if v == b"":
                        i += 1
                        v = argv[i] if i < len(argv) else b""
                    k = a[1:2]
                    if k == b"D":
                        n, eq, x = v.partition(b"=")
                        c["vars"].append((n, x))
                        if not eq:
                            c["odd"].append(a)
                    else:
                        c[{b"e": "entry", b"p": "print", b"t": "template", b"o": "out"}[k]] = v
                elif a[:2] == b"-l" or a[:2] == b"-i":
                    c["listing"] |= a[1:2] == b"l"
                    listed |= a[1:2] == b"i"
                elif a[:1] == b"-":
                    c["odd"].append(a)
                else:
                    pos.append(a)
                i += 1
            text = bytes.fromhex(d["stdin"])
            c["sources"] = pos + (text.split(b"\n")[:-1] if listed else [])
            if listed and not text.endswith(b"\n") and text:
                c["sources"].append(text[text.rfind(b"\n") + 1:])
            rv.append(c)
    return rv


def call_case(c, base_lc=b"C.UTF-8"):
    """A recorded compilation as the specification sees it."""
    return {"vars": [[bl(n), bl(v)] for n, v in c["vars"]] + [[bl("?"), bl(o)] for o in c["odd"]],
            "listing": c["listing"], "entry": opt(c["entry"]), "template": bl(c["template"] or b""), "tcontent": opt(c["tc"]),
            "out": bl(c["out"] or b""), "sources": [bl(s) for s in c["sources"]],
            "lc": opt(c["lc"] if c["lc"] != base_lc else None), "made": c["made"]}


def write(path, data, mtime=None):
    if isinstance(path, str):
        path = os.fsencode(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    if mtime is not None:
        os.utime(path, ns=(mtime, mtime))


PAST = 1500000000 * 10**9
NOBODY = 65534


def snapshot(base):
    """Everything below a directory: ({path: (content, mtime in ns)}, [directories])"""
    files, dirs = {}, []
    base = os.fsencode(base)
    for d, ds, fs in os.walk(base):
        for x in ds:
            if os.path.islink(os.path.join(d, x)):
                fs = fs + [x]
            else:
                dirs.append(os.path.join(d, x))
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                files[p] = (b"-> " + os.readlink(p), os.lstat(p).st_mtime_ns)
                continue
            try:
                with open(p, "rb") as fp:
                    files[p] = (fp.read(), os.stat(p).st_mtime_ns)
            except OSError:
                files[p] = (b"?", 0)
    return files, dirs


def content(t):
    """Long contents are only compared."""
    return bl(t) if len(t) <= 40 else bl(b"\0long:" + hashlib.md5(t).digest())


def snap_case(files):
    return [[bl(p), {"c": content(t), "s": (m - PAST) // 10**9, "n": (m - PAST) % 10**9}] for p, (t, m) in sorted(files.items())]


class Site:
    """A site in a directory of its own, and the runs of blogc-make on it.
    spec: cfg (bytes), cfgname, files {relative path: content}, vars {relative path: [(k, v)]}, dirs, outdir ("@" is the
    base directory), dev, make, copies [[entry, [files]]]"""

    def __init__(self, progs, base, spec):
        self.progs, self.spec = progs, spec
        self.base = base
        self.log = base + ".log"
        self.root = os.path.join(base, spec.get("rootname", "r"))
        os.makedirs(self.root)
        open(self.log, "w").close()
        if os.geteuid() == 0:
            os.chown(self.log, NOBODY, NOBODY)
        self.name = spec.get("cfgname", "blogcfile")
        self.cfgpath = os.path.join(self.root, self.name)
        self.sroot = os.path.dirname(self.cfgpath)
        self.cfg = spec["cfg"]
        self.files = dict(spec.get("files", {}))
        self.vars = dict(spec.get("vars", {}))
        self.copies = list(spec.get("copies", []))
        write(self.cfgpath, self.cfg, PAST)
        for f in spec.get("dirs", []):
            os.makedirs(os.path.join(self.sroot, f), exist_ok=True)
        for f, t in self.files.items():
            write(self.path(f), t, PAST)
        self.blogc = stub()
        if "blogc" in spec:
            self.blogc = os.path.join(base, spec["blogc"])
            shutil.copy(stub(), self.blogc)
        self.outdir = spec.get("outdir")
        if self.outdir is not None:
            self.outdir = self.outdir.replace("@", base)

    def path(self, rel):
        return os.path.join(os.fsencode(self.sroot), os.fsencode(rel))

    def env(self):
        env = {"BLOGC": self.blogc, "STUB_LOG": self.log, "STUB_REAL": self.progs["blogc"], "STUB_BASE": self.base + "/"}
        if self.outdir is not None:
            env["OUTPUT_DIR"] = self.outdir
        if self.spec.get("make"):
            env["MAKEFLAGS"] = ""
        return env

    def out(self):
        o = (self.outdir or "_build").rstrip("/") or "/"
        return os.path.join(os.fsencode(self.sroot), os.fsencode(o))

    def run(self, args=(), fail=None, env=None, dev=None):
        """A run, as a case of TraceSite (without id)."""
        os.truncate(self.log, 0)
        e = self.env()
        if fail:
            e["STUB_FAIL"] = "%d %s" % fail
        e.update(env or {})
        dev = self.spec.get("dev") if dev is None else dev
        pre, dirs = snapshot(self.base)
        argv = [self.progs["blogc-make"]] + (["-D"] if dev else []) + \
               (["-f", self.name] if self.name != "blogcfile" or self.spec.get("f") else []) + list(args)
        # not as root: whatever it does, it can only do to the files of the site
        if os.geteuid() == 0:
            for x in [self.base] + dirs + list(pre):
                os.lchown(x, NOBODY, NOBODY)
            argv = ["setpriv", "--reuid=%d" % NOBODY, "--regid=%d" % NOBODY, "--clear-groups", "--"] + argv
        r = run(argv, cwd=self.root, env=e)
        if r.timeout:
            raise CheckError("blogc-make timed out: %r" % argv)
        if fail and fail[1] in ("parent", "pparent"):
            # blogc-make is gone, but its child goes on
            end = time.time() + 5
            while r.rc < 0 and time.time() < end and len([c for c in read_log(self.log, True) if c["print"] is None]) < fail[0]:
                time.sleep(0.002)
        post, postdirs = snapshot(self.base)
        every = read_log(self.log)
        calls = [c for c in every if c["print"] is None]
        root = bl(os.path.normpath(self.sroot))
        return {"cfg": bl(self.cfg), "blogcfile": bl(os.path.normpath(self.cfgpath)), "args": [bl(a) for a in args], "outdir": opt(self.outdir), "dev": bool(dev),
                "root": root, "make": bool(self.spec.get("make")),
                "files": [[root + [47] + bl(p), [[bl(k), bl(v)] for k, v in vs]] for p, vs in sorted(self.vars.items())],
                "copies": [[bl(d), [bl(f) for f in fs]] for d, fs in self.copies],
                "pre": snap_case(pre), "dirs": [bl(d) for d in dirs], "post": snap_case(post), "postdirs": [bl(d) for d in postdirs],
                "stop": fail[0] if fail and len(calls) >= fail[0] and fail[1] != "silent" else 0,
                "prints": [{"vars": [[bl(n), bl(v)] for n, v in c["vars"]] + [[bl("?"), bl(o)] for o in c["odd"]], "sources": [bl(x) for x in c["sources"]]}
                           for c in every if c["print"] is not None],
                "want": {"ok": False, "v": []},
                "killed": bool(fail) and fail[1] == "pparent" and len(calls) >= fail[0],
                "dump": opt(r.out if list(args) == ["atom_dump"] else None),
                "ok": r.rc == 0, "err": r.err != b"" and r.rc in (0, 1, 3, 137) or r.rc < 0,
                "calls": [call_case(c) for c in calls], "rc": r.rc, "stderr": r.err[-400:].decode("utf-8", "replace")}


class SiteRunner:
    """Runs of blogc-make on sites that are built once, in fresh directories."""

    def __init__(self, progs, d):
        self.progs, self.d = progs, d
        self.n = 0
        self.lock = threading.Lock()
        stub()

    def site(self, spec):
        with self.lock:
            self.n += 1
            n = self.n
        return Site(self.progs, os.path.join(self.d, "s%d" % n), spec)

    def case(self, spec):
        s = self.site(spec)
        try:
            return dict(s.run(spec.get("args", [])), id=spec["id"])
        finally:
            shutil.rmtree(s.base, ignore_errors=True)
            if os.path.exists(s.log):
                os.unlink(s.log)


def seen(k):
    env = {}
    for n, v in k["vars"]:
        env[show(n)] = show(v)
    return {"vars": env, "listing": k["listing"], "entry": show(k["entry"]["v"]) if k["entry"]["ok"] else None, "template": show(k["template"]),
            "out": show(k["out"]), "sources": "\n".join(show(x) for x in k["sources"]), "lc": show(k["lc"]["v"]) if k["lc"]["ok"] else None}


def wanted(k):
    return {"vars": {show(x[0]): show(x[1]) for x in k["vars"]}, "listing": k["listing"], "entry": show(k["entry"]["v"]) if k["entry"]["ok"] else None,
            "template": show(k["template"]) or "(generated)", "out": show(k["out"]), "sources": show(k["sources"]),
            "lc": show(k["lc"]["v"]) if k["lc"]["ok"] else None}


def describe(c, e):
    t = "configuration %r, rules %s%s%s: status %d, expected %s\n" % (
        show(c["cfg"])[:1800], [show(a) for a in c["args"]], ", OUTPUT_DIR=" + show(c["outdir"]["v"]) if c["outdir"]["ok"] else "",
        ", compilation %d fails" % c["stop"] if c["stop"] else "", c["rc"], "success" if e["ok"] else "failure")
    if c["ok"] != e["ok"]:
        t += c.get("stderr", "") + "\n"
    if c["dump"]["ok"] and c["dump"]["v"] != e["dump"]:
        t += "printed %r\nexpected %r\n" % (show(c["dump"]["v"])[:1200], show(e["dump"])[:1200])
    a, b = [seen(k) for k in c["calls"]], [wanted(k) for k in e["calls"]]
    if len(a) != len(b):
        t += "%d compilations, expected %d\n" % (len(a), len(b))
        t += "  only observed: %s\n  only expected: %s\n" % ([x["out"] for x in a if x["out"] not in [y["out"] for y in b]][:5],
                                                         [x["out"] for x in b if x["out"] not in [y["out"] for y in a]][:5])
    else:
        for x, y in zip(a, b):
            for k in x:
                if x[k] != y[k] and not (k == "template" and y[k] == "(generated)"):
                    t += "  %s: %s is %r, expected %r\n" % (x["out"], k, x[k], y[k])
    pre, post = {show(p): x for p, x in c["pre"]}, {show(p): x for p, x in c["post"]}
    made = {show(p) for p in e["made"]}
    gone = {show(p) for p in e["gone"]} - made
    for p in sorted(set(pre) | set(post) | made):
        x, y = pre.get(p), post.get(p)
        if p in made:
            if y is None:
                t += "  %s was not made\n" % p
        elif p in gone:
            if y is not None:
                t += "  %s was not removed\n" % p
        elif x != y:
            t += "  %s was %s\n" % (p, "created" if x is None else "removed" if y is None else "changed")
    for p, x in e["copied"]:
        if show(p) in post and post[show(p)]["c"] != x:
            t += "  %s: %r, expected %r\n" % (show(p), show(post[show(p)]["c"])[:200], show(x)[:200])
    if c["want"]["ok"]:
        w = {show(p): show(x) for p, x in c["want"]["v"]}
        for p in sorted(set(w) | set(post)):
            if w.get(p) != (show(post[p]["c"]) if p in post else None):
                t += "  %s: %r, expected %r\n" % (p, show(post[p]["c"])[:300] if p in post else None, w.get(p))
    for p in c["prints"]:
        odd = [(show(x[0]), show(x[1])) for x in p["vars"] if x not in e["known"]]
        if odd and e["known"]:
            t += "  blogc -p got %r\n" % odd
    d1, d2 = {show(d) for d in c["dirs"]}, {show(d) for d in c["postdirs"]}
    if d1 != d2:
        t += "  directories: created %s, removed %s\n" % (sorted(d2 - d1)[:8], sorted(d1 - d2)[:8])
    return t[:4000]


def execute(chk, specs, d, variant="plain", batch=20000, samples=True):
    os.chmod(d, 0o755)
    rn = SiteRunner(build(variant), d)
    for i, s in enumerate(specs):
        s["id"] = i
    t = time.time()
    cases = pmap(rn.case, specs)
    log("  %d builds executed, %.1fs" % (len(cases), time.time() - t))
    if samples:
        for c in cases[:: max(1, len(cases) // 5)]:
            chk.sample({"cfg": show(c["cfg"])[:300], "rules": [show(a) for a in c["args"]], "ok": c["ok"], "compilations": len(c["calls"])})
    chk.conform("TraceSite", cases, lambda c: rn.case(dict(specs[c["id"]])), describe, batch=batch)
    return {"builds": len(cases), "successful": sum(c["ok"] for c in cases), "compilations": sum(len(c["calls"]) for c in cases),
            "builds_with_outputs": sum(bool(c["calls"]) for c in cases)}


class History:
    """A site and what happens to it. spec["steps"]: (what, ...):
    edit relative-path content tick, post slug-path variables tick, cfg text tick, lose path-below-output, touch path-below-output tick,
    add relative-path content tick (to a copied directory), build args fail, clean.
    The time of tick t is spec["time"](t); every build is a tick of its own and recorded as a case."""

    def __init__(self, progs, d, spec, n):
        self.s = Site(progs, os.path.join(d, "h%d" % n), spec)
        self.spec = spec
        self.time = spec["time"]

    def stamp(self, path, t):
        ns = PAST + self.time(t)
        os.utime(path, ns=(ns, ns), follow_symlinks=False)

    def play(self, only=None):
        s, clock, rv = self.s, 0, []
        files, _ = snapshot(s.base)
        for p in files:
            self.stamp(p, 0)
        for k, step in enumerate(self.spec["steps"]):
            what = step[0]
            if what in ("edit", "add", "post", "cfg", "touch"):
                clock += step[-1]
            if what in ("edit", "add"):
                write(s.path(step[1]), step[2])
                self.stamp(s.path(step[1]), clock)
                if what == "add":
                    for i, (e, fs) in enumerate(s.copies):
                        if step[1].startswith(e + "/"):
                            s.copies[i] = [e, sorted(set(fs) | {step[1]})]
            elif what == "post":
                write(s.path(step[1]), step[2])
                self.stamp(s.path(step[1]), clock)
                s.vars[step[1]] = step[3]
            elif what == "cfg":
                s.cfg = step[1]
                write(s.cfgpath, s.cfg)
                self.stamp(s.cfgpath, clock)
            elif what == "lose":
                p = os.path.join(s.out(), os.fsencode(step[1]))
                if os.path.islink(p) or os.path.isfile(p):
                    os.unlink(p)
            elif what == "mkdir":
                os.makedirs(s.path(step[1]), exist_ok=True)
            elif what == "link":
                p = s.path(step[1])
                if os.path.lexists(p):
                    os.unlink(p)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(step[2], p)
            elif what == "copies":
                s.copies = step[1]
            elif what == "remember":
                tree = [[bl(p), content(t)] for p, (t, _) in sorted(snapshot(s.base)[0].items())]
            elif what == "touch":
                p = os.path.join(s.out(), os.fsencode(step[1]))
                if os.path.exists(p):
                    self.stamp(p, clock)
            else:
                clock += 1
                before, _ = snapshot(s.base)
                c = s.run(step[1] if len(step) > 1 else ["clean"], fail=step[2] if len(step) > 2 else None,
                          env={"STUB_RUN": "1"} if self.spec.get("real") else None)
                if len(step) > 3:       # the same tree as when it was remembered
                    c["want"] = {"ok": True, "v": tree}
                after, _ = snapshot(s.base)
                for p in after:
                    if after[p] != before.get(p):
                        self.stamp(p, clock)
                c["step"] = k
                if only is None or only == k:
                    rv.append(c)
        shutil.rmtree(s.base, ignore_errors=True)
        if os.path.exists(s.log):
            os.unlink(s.log)
        return rv


def describe_step(specs):
    def f(c, e):
        s = specs[c["history"]]
        steps = [tuple(x if not isinstance(x, bytes) else x.decode("utf-8", "replace")[-300:] for x in st) for st in s["steps"][:c["step"] + 1]]
        return "history %r (times %s)\n" % (steps, s.get("scheme")) + describe(c, e)
    return f


def replay(chk, specs, d, variant="plain", samples=True, **kw):
    """Histories are executed, and every run in them is judged."""
    progs = build(variant)
    os.chmod(d, 0o755)
    stub()
    count = [0]
    lock = threading.Lock()

    def play(i, only=None):
        with lock:
            count[0] += 1
            n = count[0]
        return History(progs, d, specs[i], n).play(only)
    t = time.time()
    cases = []
    for i, cs in enumerate(pmap(play, range(len(specs)))):
        for c in cs:
            cases.append(dict(c, id=len(cases), history=i))
    log("  %d histories (%d runs) executed, %.1fs" % (len(specs), len(cases), time.time() - t))
    if samples:
        for s in specs[:: max(1, len(specs) // 5)]:
            chk.sample({"steps": [[str(x)[:60] for x in st] for st in s["steps"]], "scheme": s.get("scheme")})

    def again(c):
        r = play(c["history"], c["step"])[0]
        return dict(r, id=c["id"], history=c["history"])
    chk.conform("TraceSite", cases, again, describe_step(specs), **kw)
    return {"histories": len(specs), "runs": len(cases), "failed_runs": sum(not c["ok"] for c in cases),
            "compilations": sum(len(c["calls"]) for c in cases), "runs_without_compilations": sum(c["ok"] and not c["calls"] for c in cases)}
