"""C20, C21, C22: blogc-git-receiver."""
import hashlib, threading, time
from vp import *
from sitelib import NOBODY

ROOTUSER = os.geteuid() == 0
_lock = threading.RLock()


def compiled(name, flags=()):
    """A compiled file of harness/."""
    src = os.path.join(ROOT, "harness", name + ".c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    p = os.path.join(WORK, "%s-%s" % (name, h))
    with _lock:
        os.makedirs(WORK, exist_ok=True)
        if not os.path.exists(p):
            tmp = p + ".%d" % os.getpid()
            subprocess.run(["gcc", "-O1", "-o", tmp, src] + list(flags), check=True)
            os.rename(tmp, p)
    return p


class Tools:
    """A directory of programs: stand-ins, and the real ones that they need."""

    def __init__(self, top, names=("git", "git-shell", "blogc-make"), real=("sh", "mkdir", "tar", "gzip", "cat", "cp", "rm", "ln", "touch", "chmod", "sleep", "gmake", "make", "kill", "true", "false", "readlink", "ls", "mv")):
        self.path = os.path.join(top, "bin%d" % len(os.listdir(top)))
        os.mkdir(self.path)
        stand = os.path.join(self.path, ".gitstub")
        shutil.copy(compiled("gitstub"), stand)
        os.chmod(stand, 0o755)
        os.chmod(self.path, 0o755)
        for n in names:
            os.symlink(".gitstub", os.path.join(self.path, n))
        for n in real:
            p = shutil.which(n)
            if p:
                os.symlink(os.path.realpath(p), os.path.join(self.path, n))


def kind_of(st):
    import stat
    return "link" if stat.S_ISLNK(st) else "dir" if stat.S_ISDIR(st) else "file" if stat.S_ISREG(st) else "odd"


def listing(base):
    """Everything under a directory, also behind links to directories."""
    rv = []

    def go(d, segs, depth):
        try:
            names = sorted(os.listdir(d))
        except OSError:
            return
        for n in names:
            p = os.path.join(d, n)
            try:
                k = kind_of(os.lstat(p).st_mode)
            except OSError:
                continue        # (too long a name)
            try:
                s = kind_of(os.stat(p).st_mode)
            except OSError:
                s = "none"
            t = b""
            if k == "link":
                t = os.readlink(p)
            elif k == "file":
                with open(p, "rb") as f:
                    t = f.read()
            rv.append({"p": [bl(x) for x in segs + [n]], "k": k, "t": bl(t), "s": s})
            if s == "dir" and (k != "link" or depth < 2):
                go(p, segs + [n], depth + (k == "link"))
    go(os.fsencode(base), [], 0)
    return rv


def calls(log):
    rv = []
    if os.path.exists(log):
        for line in open(log):
            d = json.loads(line)
            rv.append({"prog": bl(bytes.fromhex(d["prog"])), "argv": [bl(bytes.fromhex(a)) for a in d["argv"]], "cwd": bl(bytes.fromhex(d["cwd"]))})
    return rv


def user(n=0):
    return dict(user=NOBODY + n, group=NOBODY, extra_groups=[]) if ROOTUSER else {}


def opened(base):
    """The scratch directory belongs to the unprivileged user."""
    if ROOTUSER:
        for d, ds, fs in os.walk(base):
            for x in [d] + [os.path.join(d, f) for f in ds + fs]:
                os.lchown(x, NOBODY, NOBODY)


# --------------------------------------------------------------------------- C20

VERBS = [b"git-receive-pack", b"git-upload-pack", b"git-upload-archive"]


class Shells:
    def __init__(self, top):
        self.top, self.n = top, 0
        os.chmod(top, 0o755)
        self.tools = Tools(top)
        self.prog = os.path.join(top, "blogc-git-receiver")
        shutil.copy(build("plain")["blogc-git-receiver"], self.prog)
        os.chmod(self.prog, 0o755)

    def case(self, spec):
        """spec: kind, cmd, args, argv0, nodes [(path, kind, text)], base (its name), env, status, initfails"""
        with _lock:
            self.n += 1
            n = self.n
        home = os.path.join(self.top, "h%d" % n)
        B = os.path.join(os.fsencode(home), spec.get("base", b"base"))
        log = os.path.join(home, "log")
        os.makedirs(B)
        if spec.get("repos", True):
            os.makedirs(os.path.join(B, b"repos"), exist_ok=True)
        me = os.fsencode(self.prog)
        for p, k, t in spec.get("nodes", []):
            q = os.path.join(B, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if k == "dir":
                os.makedirs(q, exist_ok=True)
            elif k == "file":
                with open(q, "wb") as f:
                    f.write(t)
            elif k == "self":
                os.symlink(me, q)
            else:
                os.symlink(B + t[1:] if t[:1] == b"^" else t, q)
        opened(home)
        for p in spec.get("sealed", []):
            os.chmod(os.path.join(B, p), 0o555)
        kind, cmd = spec.get("kind", "c"), spec["cmd"]
        env = {b"PATH": os.fsencode(self.tools.path), b"REC_LOG": os.fsencode(log), b"GS_SHELL_RC": b"%d" % spec.get("status", 0), b"LC_ALL": b"C.UTF-8"}
        selfv, basev = None, None
        if spec.get("shell", kind == "c"):
            selfv = spec.get("shellv", me)
            env[b"SHELL"] = selfv
        where = spec.get("where", "HOME")
        if where != "none":
            basev = B
            env[b"HOME" if where == "HOME" else b"BLOGC_GIT_RECEIVER_BASE_DIR"] = B
            if where == "both":
                env[b"HOME"] = b"/nonexistent"
        if spec.get("initfails"):
            env[b"GS_INIT_FAIL"] = b"1"
        if spec.get("nohooks"):
            env[b"GS_INIT_BARE_HOOKS"] = b"1"
        argv0 = spec.get("argv0", me)
        if kind == "c":
            args = [argv0, b"-c", cmd]
            if spec.get("sshtoo"):
                env[b"SSH_ORIGINAL_COMMAND"] = b"git-upload-pack 'other.git'"
        elif kind == "ssh":
            args, selfv = [argv0], argv0
            env[b"SSH_ORIGINAL_COMMAND"] = cmd
        else:
            args = [argv0] + [cmd if a is None else a for a in spec["args"]]
            if "ssh" in spec:
                env[b"SSH_ORIGINAL_COMMAND"] = cmd
        try:
            pre = listing(B)
            try:
                p = subprocess.run(args, executable=me, env=env, cwd=home, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, **user())
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                rc, err = -999, b"timeout"
            for q in spec.get("sealed", []):
                os.chmod(os.path.join(B, q), 0o755)
            return {"id": spec["id"], "kind": kind, "cmd": bl(cmd), "self": {"ok": selfv is not None, "v": bl(selfv or b"")}, "base": {"ok": basev is not None, "v": bl(basev or b"")},
                    "initfails": bool(spec.get("initfails")), "status": spec.get("status", 0), "tree": pre, "post": listing(B), "execs": calls(log), "rc": rc,
                    "sealed": bool(spec.get("sealed")), "stderr": err.decode("utf-8", "replace")[-300:]}
        finally:
            shutil.rmtree(home, ignore_errors=True)


def c20_describe(c, e):
    return "%s %r: status %d, called %s; expected %s%s\nbefore %s\nafter %s\n%s" % (
        c["kind"], show(c["cmd"])[:300], c["rc"], [(show(x["prog"]), [show(a)[:200] for a in x["argv"]]) for x in c["execs"]],
        "execution" if e["must"] else "execution or refusal" if e["may"] else "refusal",
        " on " + "/".join(show(x) for x in e["segs"])[:200] if e["gate"] else "",
        [("/".join(show(x) for x in n["p"])[:100], n["k"], show(n["t"])[:80]) for n in c["tree"]][:12],
        [("/".join(show(x) for x in n["p"])[:100], n["k"], show(n["t"])[:80]) for n in c["post"]][:14], c["stderr"])


def quote(n):
    return b"'" + b"".join(b"'\\" + bytes([x]) + b"'" if x in b"'!" else bytes([x]) for x in n) + b"'"


def setup_nodes(s, repo=b"a.git"):
    """A state of MCSetUp as nodes."""
    R = b"repos/" + repo
    nodes = [(b"repos/other.git/hooks/pre-receive", "link", b"/old/blogc-git-receiver"), (b"elsewhere/keep", "file", b"kept"), (b"repos/other.git/HEAD", "file", b"ref\n")]
    k = s["repo"]
    if k == "file":
        nodes.append((R, "file", b"a file"))
    elif k == "link":
        nodes.append((R, "link", b"/nonexistent/x"))
    elif k == "dirlink":
        nodes += [(b"store/HEAD", "file", b"x"), (R, "link", b"^/store")]
        R = b"store"
    elif k == "dir":
        nodes.append((R + b"/HEAD", "file", b"x"))
    if k in ("dir", "dirlink"):
        h, H = s["hooks"], R + b"/hooks"
        if h == "file":
            nodes.append((H, "file", b"f"))
        elif h == "link":
            nodes.append((H, "link", b"nowhere"))
        elif h == "dirlink":
            nodes += [(b"shared/keep", "file", b"k"), (H, "link", b"^/shared")]
            H = b"shared"
        elif h == "dir":
            nodes.append((H, "dir", b""))
        if h in ("dir", "dirlink"):
            for n in ("pre", "post"):
                p, v = H + b"/" + n.encode() + b"-receive", s[n]
                if v == "dir":
                    nodes.append((p + b"/x", "file", b"in a directory"))
                elif v == "file":
                    nodes.append((p, "file", b"#!/bin/sh\nexit 0\n"))
                elif v == "link":
                    nodes.append((p, "link", b"/nonexistent/old" if n == "pre" else b"^/elsewhere/keep"))
                elif v == "self":
                    nodes.append((p, "self", b""))
    return nodes


def C20():
    chk = Check("C20", "model_checking")
    rnd = chk.rng
    size = 5 if QUICK else 6
    r1 = chk.model_check("MCGitShell", "MCGitShell%d.cfg" % size, minimum=10000)
    r2 = chk.model_check("MCSetUp", "MCSetUp.cfg", minimum=1000)
    specs = []
    # every tail of a command
    tails = sorted(bytes(c["s"]) for c in r1.printed("CASE"))
    if QUICK:
        keep = [t for t in tails if len(t) <= 4]
        tails = keep + rnd.sample([t for t in tails if len(t) > 4], min(3500, len(tails) - len(keep)))
    elif len(tails) > 40000:
        tails = rnd.sample(tails, 40000)
    for t in tails:
        v = VERBS[1] if rnd.random() < 0.5 else rnd.choice(VERBS)
        specs.append({"cmd": v + b" " + t, "nodes": [(b"repos/a/HEAD", "file", b"x")] if rnd.random() < 0.5 else []})
    # every state before a push
    for i, c in enumerate(r2.printed("CASE")):
        for v in (VERBS if c["s"]["repo"] in ("none", "file") else VERBS[:1] + [VERBS[1 + i % 2]]):
            specs.append({"cmd": v + b" 'a.git'", "nodes": setup_nodes(c["s"]), "initfails": c["init"], "status": rnd.choice([0, 0, 1, 128])})
        specs.append({"cmd": b"git-receive-pack '/x y/a.git/'", "nodes": setup_nodes(c["s"], b"x y/a.git"), "initfails": c["init"], "base": b"it's $HOME \"!\" dir"})
    # words around the three
    for v in VERBS + [v[:-1] for v in VERBS] + [v + b"x" for v in VERBS] + [v.replace(b"-", b" ", 1) for v in VERBS] + [v.upper() for v in VERBS] + [
            b"git", b"", b"sh", b"git-shell", b"git-receive-pack;id", b"/usr/bin/git-receive-pack", b"git-upload-pack\t", b" git-upload-pack", b"git-upload-", b"git-upload-packs", b"git-receive-packgit-upload-pack", b"git-upload-pack-archive", b"git-http-backend"]:
        for tail in (b" 'a.git'", b"'a.git'", b"  'a.git'", b"\t'a.git'", b" a.git", b" \"a.git\"", b" 'a.git' ", b" 'a.git' 'b.git'", b" 'a.git';id", b" 'a.git'\n", b" 'a.git", b" 'a.git'\\", b"", b" ", b" ''", b" '/'", b" '//'", b" '.'", b" '..'", b" '/..'",
                     b" '../a.git'", b" 'x/../../a.git'", b" 'x/..'", b" './a.git'", b" 'a.git/.'", b" '..a/b..'", b" '...'", b" '//a.git//'", b" '/'\\''a.git'", b" --help", b" -x 'a.git'", b" '-x'", b" '~/a.git'", b" '$(id).git'", b" 'a\nb.git'", b" 'a.git'\\'''", b" 'a.git'\\'", b" \\''a.git'",
                     b" '.'\\!'.'", b" '''..'", b" '.''.'", b" '/''/a'", b" ''\\''/../../../x'"):
            specs.append({"cmd": v + tail, "nodes": [(b"repos/a.git/HEAD", "file", b"x")] if rnd.random() < 0.5 else []})
    # arguments, environments
    for cmd in (b"git-upload-pack 'a.git'", b"git-receive-pack 'a.git'"):
        for args in ([], [b"-c"], [b"-c", None, b"x"], [b"-x", None], [None], [b"-c", b""], [b"-c", b"", None], [b"--", None], [b"-c", b"-c", None], [None, b"-c"]):
            specs.append({"kind": "other", "cmd": cmd, "args": args, "shell": True})
            if len(args) > 0:
                specs.append({"kind": "other", "cmd": cmd, "args": args, "shell": True, "ssh": True})
        specs.append({"kind": "other", "cmd": cmd, "args": [], "argv0": b"-blogc-git-receiver", "ssh": True, "shell": True})
        specs.append({"kind": "other", "cmd": cmd, "args": [], "argv0": b"bin/blogc-git-receiver", "ssh": True, "shell": True})
        for where in ("HOME", "dir", "both", "none"):
            for shell in (True, False):
                specs.append({"cmd": cmd, "where": where, "shell": shell})
            specs.append({"kind": "ssh", "cmd": cmd, "where": where})
            specs.append({"kind": "ssh", "cmd": cmd, "where": where, "argv0": b"/some where/blogc-git-receiver", "shell": True, "shellv": b"/bin/bash"})
        specs.append({"cmd": cmd, "sshtoo": True})
        specs.append({"cmd": cmd, "repos": False})
        specs.append({"cmd": cmd, "nohooks": True})
        specs.append({"cmd": cmd, "argv0": b"-blogc-git-receiver"})
        specs.append({"cmd": cmd, "nodes": [(b"repos/a.git/hooks/pre-receive", "self", b""), (b"repos/a.git/hooks/post-receive", "link", b"/old")], "shellv": b"/new/blogc-git-receiver"})
    # names of all kinds and lengths
    weird = [b"a", b"b.git", b"x y", b"'", b"!", b"\\", b"$x", b"`id`", b";id", b"|", b"\"", b"*", b"\n", b"\t", b"-", b"#", b"..", b".", b"\xc3\xa9", b"\xff", b"(", b"&", b"/", b"/", b"..."]
    for i in range(700 if QUICK else 4000):
        n = b"".join(rnd.choice(weird) for _ in range(rnd.randint(1, 6)))
        specs.append({"cmd": rnd.choice(VERBS) + b" " + quote(n), "base": rnd.choice([b"base", b"a b", b"q'!", b"$x"]), "where": rnd.choice(["HOME", "dir", "both"]), "kind": rnd.choice(["c", "c", "ssh"])})
    # around the sizes of buffers
    for v in VERBS:
        for total in list(range(4030, 4110)) if not QUICK else (list(range(4084, 4104)) if v == VERBS[1] else rnd.sample(range(4030, 4110), 6)):
            specs.append({"cmd": v, "total": total, "quotes": rnd.random() < 0.4})
        for total in (255, 256, 1023, 1024, 1025, 2048, 8192):
            specs.append({"cmd": v, "total": total, "quotes": rnd.random() < 0.4})
    with Scratch() as top:
        S = Shells(top)
        for i, s in enumerate(specs):
            s["id"] = i
            if "total" in s:
                # the quoted path of the repository, with the verb, has that length
                fixed = len(s["cmd"]) + 1 + 2 + len(os.path.join(top, "h%d" % 10000, "base", "repos")) + 1
                name, left = b"", max(1, s["total"] - fixed)
                while left > 0:
                    k = min(left, 201)
                    if s["quotes"] and k > 8:
                        name += b"'" * (k // 4) + b"d" * (k % 4 - 1) + b"/" if k % 4 else b"'" * (k // 4 - 1) + b"ddd/"
                    else:
                        name += b"d" * (k - 1) + b"/"
                    left -= k
                name = name[:-1] + b"e"
                s["cmd"] += b" " + quote(name)
        cases = pmap(S.case, specs)
        chk.conform("TraceShell", cases, lambda c: S.case(specs[c["id"]]), c20_describe)
        for c in cases[:2] + cases[-2:]:
            chk.sample({"command": show(c["cmd"])[:120], "status": c["rc"], "called": [[show(a)[:120] for a in x["argv"]] for x in c["execs"]]})
    chk.assumptions += ["git and git-shell are recording stand-ins; a directory that exists at the repository's place is taken for a repository",
                        "a quoted command line of 4090 bytes or more may be refused", "words that a shell would read like git's quoting, but that git does not write, may be accepted or refused"]
    return chk.finish(bounds="all command tails up to %d characters over 7 characters, all prior states of repository and hooks" % size)


# --------------------------------------------------------------------------- C21, C22

def rev(i):
    return hashlib.sha1(b"revision %d" % i).hexdigest().encode()


ZERO = b"0" * 40


class Revision:
    """What a revision contains, and what its build does.  kind: blogcfile, makefile, both, none; result: ok, fail,
    signal, void (succeeds without output); at: where it fails; traps: links that lead elsewhere."""

    def __init__(self, i, kind="makefile", result="ok", at=2, traps=False, die=0, hide=False, bare=False, name=None):
        self.i, self.kind, self.result, self.at, self.traps, self.die, self.hide, self.bare = i, kind, result, at, traps, die, hide, bare
        self.rev = rev(i) if not name else name

    def write(self, d, foreign):
        d = os.path.join(d, self.rev.decode())
        os.makedirs(d)

        def put(n, t):
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        put("src.txt", "source of %s\n" % self.rev.decode())
        if self.traps:
            os.symlink(foreign, os.path.join(d, "way-out"))
            os.symlink("nowhere", os.path.join(d, "dangling"))
            os.symlink("src.txt", os.path.join(d, "inside"))
            os.makedirs(os.path.join(d, "sub", "deeper"))
            os.symlink("../..", os.path.join(d, "sub", "deeper", "up"))
        if self.kind in ("makefile", "both"):
            put("Makefile", "all:\n\t@%s\n" % ("exit 7" if self.kind == "both" else "sh ./BUILD"))
        if self.kind in ("blogcfile", "both"):
            put("blogcfile", "")
        steps = ['mkdir -p "$OUTPUT_DIR"' if not self.bare else 'test -d "${OUTPUT_DIR%/*}" || mkdir "${OUTPUT_DIR%/*}"\nmkdir "$OUTPUT_DIR"', 'printf "%s" "$BLOGC_GIT_RECEIVER" > "$OUTPUT_DIR/env"', 'mkdir "$OUTPUT_DIR/sub"', 'cp src.txt "$OUTPUT_DIR/sub/src.txt"']
        if self.traps:
            steps += ['ln -s "%s" "$OUTPUT_DIR/way-out"' % foreign, 'ln -s nowhere "$OUTPUT_DIR/dangling"', 'ln -s .. "$OUTPUT_DIR/sub/up"', 'ln -s "%s/keep" "$OUTPUT_DIR/sub/file"' % foreign,
                      'touch "$OUTPUT_DIR/.hidden"', 'mkdir "$OUTPUT_DIR/.git"', 'touch "$OUTPUT_DIR/.git/..x"']
        if self.hide:
            steps += ['rm -f src.txt Makefile', 'ln -s "%s" here' % foreign]
        if self.die:
            steps.insert(min(self.die, len(steps)), 'kill -9 "$HOOK_PID"')
        steps.append('printf end > "$OUTPUT_DIR/last"')
        if self.result == "void":
            steps = ["true"]
        elif self.result != "ok":
            steps.insert(min(self.at, len(steps)), {"fail": "exit 1", "signal": "kill -9 $$", "parent": "kill -9 $PPID; exit 1"}[self.result])
        put("BUILD", "set -e\n" + "\n".join(steps) + "\n")

    def full(self, foreign):
        if self.result != "ok" or self.kind == "none":
            return b"-"
        t = {"env": ("file", b"1" if self.kind == "makefile" else b""), "sub": ("dir", b""), "sub/src.txt": ("file", b"source of " + self.rev + b"\n"), "last": ("file", b"end")}
        if self.traps:
            F = os.fsencode(foreign)
            t.update({"way-out": ("link", F), "dangling": ("link", b"nowhere"), "sub/up": ("link", b".."), "sub/file": ("link", F + b"/keep"),
                      ".hidden": ("file", b""), ".git": ("dir", b""), ".git/..x": ("file", b"")})
        return token({os.fsencode(k): v for k, v in t.items()})


def token(t):
    return hashlib.sha1(repr(sorted(t.items())).encode()).hexdigest()[:12].encode()


def plain(d, skip=()):
    """The tree below d without following links: {path: (kind, text)}"""
    rv = {}
    D = os.fsencode(d)
    for top, ds, fs in os.walk(D):
        ds.sort()
        for n in sorted(ds + fs):
            p = os.path.join(top, n)
            if p in skip:
                if n in ds:
                    ds.remove(n)
                continue
            k = kind_of(os.lstat(p).st_mode)
            t = b""
            if k == "link":
                t = os.readlink(p)
            elif k == "file":
                try:
                    with open(p, "rb") as f:
                        t = f.read()
                except OSError:
                    t = b"?"
            rv[os.path.relpath(p, D)] = (k, t)
    return rv


SWEEP = {"unlink", "unlinkat", "rmdir", "remove", "opendir"}


class Deploys:
    def __init__(self, top):
        self.top, self.n = top, 0
        os.chmod(top, 0o755)
        self.tools = {}
        self.prog = os.path.join(top, "blogc-git-receiver")
        shutil.copy(build("plain")["blogc-git-receiver"], self.prog)
        os.chmod(self.prog, 0o755)
        self.steps = os.path.join(top, "steps.so")
        shutil.copy(compiled("steps", ["-shared", "-fPIC", "-ldl"]), self.steps)
        os.chmod(self.steps, 0o755)
        self.uids = list(range(20000 + (os.getpid() * 16) % 30000, 20000 + (os.getpid() * 16) % 30000 + 16))
        for no in ((), ("gmake",), ("gmake", "make"), ("blogc-make",), ("tar",), ("git",)):
            self.toolset(no)

    def toolset(self, no):
        no = tuple(sorted(no))
        with _lock:
            if no not in self.tools:
                t = Tools(self.top)
                for n in no:
                    os.unlink(os.path.join(t.path, n))
                self.tools[no] = t
            return self.tools[no].path

    def history(self, spec):
        """spec: id, revs [Revision], ops, link, where, builds, sections; returns a case for each operation."""
        with _lock:
            self.n += 1
            n = self.n
            uid = self.uids.pop()
        home = os.path.join(self.top, "d%d" % n)
        try:
            return self._history(spec, home, uid)
        finally:
            shutil.rmtree(home, ignore_errors=True)
            for x in self.temps(uid):
                shutil.rmtree(x, ignore_errors=True)
            with _lock:
                self.uids.append(uid)

    def temps(self, uid):
        rv = []
        for n in os.listdir("/tmp"):
            p = os.path.join("/tmp", n)
            try:
                if os.lstat(p).st_uid == uid if ROOTUSER else n.startswith("blogc_"):
                    rv.append(p)
            except OSError:
                pass
        return sorted(rv)

    def _history(self, spec, home, uid):
        base = os.path.join(home, spec.get("base", "base"))
        foreign = os.path.join(home, "foreign-site")
        content = os.path.join(home, "content")
        for x in (os.path.join(base, "repos"), os.path.join(foreign, "photos"), content, os.path.dirname(os.path.join(home, spec.get("builds") or "x"))):
            os.makedirs(x, exist_ok=True)
        with open(os.path.join(foreign, "keep"), "w") as f:
            f.write("kept\n")
        with open(os.path.join(foreign, "photos", "one"), "w") as f:
            f.write("photo\n")
        revs = spec["revs"]
        for r in revs:
            r.write(content, foreign)
        builddir = os.path.join(home, spec["builds"]) if spec.get("builds") else os.path.join(base, "builds")
        oldbuilds = os.path.join(home, "old-builds")
        repos = spec.get("repos", ["site.git"])
        for r in repos:
            os.makedirs(os.path.join(base, "repos", r, "hooks"))
            os.symlink(self.prog, os.path.join(base, "repos", r, "hooks", "pre-receive"))
        # a build from before
        first = None
        if spec.get("first"):
            d = os.path.join(oldbuilds if spec.get("moved") else builddir, revs[0].rev.decode() + "-%d" % (1500000000 if spec.get("long_ago", True) else time.time()))
            os.makedirs(d)
            log = os.path.join(home, "log0")
            subprocess.run(["sh", "./BUILD"], cwd=os.path.join(content, revs[0].rev.decode()), env={"OUTPUT_DIR": d, "PATH": self.toolset(()), **({"BLOGC_GIT_RECEIVER": "1"} if revs[0].kind == "makefile" else {})}, check=True)
            first = d
        sections = []
        ini = ""
        for s in spec.get("sections", []):
            link = s.get("symlink")
            if link is not None:
                link = link.replace("^", home)
            ini += "[%s]\n" % s["name"] + ("symlink = %s\n" % link if link is not None else "") + "".join("%s\n" % x for x in s.get("more", []))
            sections.append((s["name"], link))
        if ini:
            with open(os.path.join(base, "blogc-git-receiver.ini"), "w") as f:
                f.write(ini)
        os.makedirs(os.path.join(home, "www"))
        places = {}
        for r in repos:
            rd = os.path.join(base, "repos", r)
            places[r] = [os.path.join(rd, "htdocs")] + [l if l.startswith("/") else os.path.join(rd, l) for _, l in sections if l is not None]
        # the live link
        L = spec.get("link", "none")
        lp = os.path.join(home, spec["linkat"].replace("REPO", os.path.relpath(os.path.join(base, "repos", repos[0]), home))) if spec.get("linkat") else places[repos[0]][0]
        if L == "first":
            os.symlink(first, lp)
        elif L == "chain":
            os.symlink(first, os.path.join(home, "www", "current"))
            os.symlink(os.path.join(home, "www", "current"), lp)
        elif L == "dangling":
            os.symlink(os.path.join(builddir, rev(1).decode() + "-1400000000"), lp)
        elif L == "astray":
            os.symlink("/nonexistent/site", lp)
        elif L == "foreign":
            os.symlink(foreign, lp)
        elif L == "file":
            with open(lp, "w") as f:
                f.write("a file\n")
        elif L == "dir":
            os.makedirs(os.path.join(lp, "x"))
        opened2(home, uid)
        allplaces = sorted({os.fsencode(os.path.normpath(p)) if False else os.fsencode(p) for ps in places.values() for p in ps} | {os.fsencode(lp)})

        def look():
            w = {"places": [], "builds": [], "temps": [bl(t) for t in self.temps(uid)]}
            skip = set()
            for p in allplaces:
                k, t, real = "none", b"", b""
                if os.path.lexists(p):
                    k = kind_of(os.lstat(p).st_mode)
                    if k == "link":
                        t = os.readlink(p)
                        skip.add(os.path.normpath(p))
                        if os.path.exists(p):
                            real = os.path.realpath(p)
                w["places"].append({"k": k, "t": bl(t), "real": bl(real)})
            for d in {builddir, oldbuilds}:
                if os.path.isdir(d):
                    for b in sorted(os.listdir(d)):
                        p = os.path.join(d, b)
                        w["builds"].append({"path": bl(p), "tok": bl(token(plain(p))) if not os.path.islink(p) and os.path.isdir(p) else bl("?")})
                skip.add(os.fsencode(d))
            skip.add(os.fsencode(os.path.join(home, "steps.log")))
            skip.add(os.fsencode(os.path.join(home, "calls.log")))
            w["rest"] = [{"p": bl(os.path.join(os.fsencode(home), p)), "k": v[0], "v": bl(hashlib.sha1(v[1]).hexdigest()[:8])} for p, v in sorted(plain(home, skip).items())]
            return w

        rv = []
        w = look()
        for i, op in enumerate(spec["ops"]):
            repo = op.get("repo", repos[0])
            rd = os.path.join(base, "repos", repo)
            slog, clog = os.path.join(home, "steps.log"), os.path.join(home, "calls.log")
            for x in (slog, clog):
                if os.path.exists(x):
                    os.unlink(x)
            env = {"PATH": self.toolset(op.get("no", ())), "LC_ALL": "C.UTF-8", "GS_CONTENT": content, "REC_LOG": clog, "STEP_LOG": slog, "LD_PRELOAD": self.steps, "SHELL": self.prog}
            env["BLOGC_GIT_RECEIVER_BASE_DIR" if spec.get("where") == "dir" else "HOME"] = base
            if spec.get("builds"):
                env["BLOGC_GIT_RECEIVER_BUILDS_DIR"] = builddir
            if op.get("archive"):
                env["GS_ARCHIVE"] = op["archive"]
            if op.get("kill"):
                env["STEP_KILL"] = str(op["kill"])
            if op.get("fail"):
                env["STEP_FAIL"] = str(op["fail"])
            push = op["kind"] == "push"
            lines = b"".join(b"%s %s %s\n" % (u[1] if len(u) > 3 else (rev(90) if u[0] != "new" else ZERO), u[1], u[2]) for u in op.get("updates", []))
            cwd, argv0 = rd, "hooks/pre-receive"
            if push:
                env["GIT_DIR"] = "."
            else:
                cwd, argv0 = {"repo": (rd, "./hooks/pre-receive"), "up": (os.path.join(base, "repos"), "./%s/hooks/pre-receive" % repo), "abs": ("/", os.path.join(rd, "hooks", "pre-receive")),
                              "hooks": (os.path.join(rd, "hooks"), "./pre-receive")}[op.get("from", "repo")]
            if op.get("wait"):
                time.sleep(op["wait"])
            try:
                p = subprocess.run([argv0], cwd=cwd, env=env, input=lines if push else b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                                   **(dict(user=uid, group=NOBODY, extra_groups=[]) if ROOTUSER else {}))
                rc, err = p.returncode, p.stderr + p.stdout
            except subprocess.TimeoutExpired:
                rc, err = -999, b"timeout"
            w2 = look()
            did = [l.split() for l in open(slog)] if os.path.exists(slog) else []
            inject = "none"
            for s in did:
                if s[1:] == ["killed"]:
                    inject = "killed"
                elif s[1:] == ["failed"]:
                    inject = "sweep" if s[0] in SWEEP else "fault"
            if rc == -9 and inject == "none" and any(r.die for r in revs):
                inject = "killed"
            secs = []
            for name, link in sections:
                mine = name.startswith("repo:") and os.path.realpath(os.path.join(base, "repos", name[5:])) == os.path.realpath(rd) and os.path.exists(os.path.join(base, "repos", name[5:]))
                secs.append({"mine": mine, "has": link is not None, "symlink": bl(link or "")})
            rv.append({"push": push, "input": bl(lines if push else b""), "repo": bl(rd), "sections": secs,
                       "places": [{"path": bl(p), "dir": bl(os.path.realpath(os.path.dirname(p))), "pre": a, "post": b} for p, a, b in zip(allplaces, w["places"], w2["places"])],
                       "builddir": bl(builddir), "oldbuilds": [bl(oldbuilds)], "builds1": w["builds"], "builds2": w2["builds"], "temps1": w["temps"], "temps2": w2["temps"],
                       "rest1": w["rest"], "rest2": w2["rest"],
                       "content": [{"rev": bl(r.rev), "kind": r.kind, "result": r.result, "full": bl(r.full(foreign))} for r in revs],
                       "no": [bl(x) for x in op.get("no", ())], "archive": bool(op.get("archive")), "holes": [bl(os.path.join(home, x)) for x in spec.get("holes", [])],
                       "inject": inject, "rc": rc, "real": False, "refs1": [], "refs2": [], "wanted": [], "hist": spec["id"], "step": i, "stderr": err.decode("utf-8", "replace")[-700:], "calls": [" ".join(s) for s in did]})
            w = w2
        return rv


def opened2(base, uid):
    if ROOTUSER:
        for d, ds, fs in os.walk(base):
            for x in [d] + [os.path.join(d, f) for f in ds + fs]:
                os.lchown(x, uid, NOBODY)


def c21_describe(c, e):
    def world(n):
        return "live %s, builds %s, temporary %s" % (
            [(show(p["path"]), p[n]["k"], show(p[n]["t"])) for p in c["places"] if p["path"] == e["link"]],
            [(show(b["path"]).rsplit("/", 1)[1], show(b["tok"])) for b in c["builds1" if n == "pre" else "builds2"]], [show(t) for t in c["temps1" if n == "pre" else "temps2"]])
    a, b = ({(show(x["p"]), x["k"], show(x["v"])) for x in c["rest%d" % i]} for i in (1, 2))
    return "operation %d of history %s: %s %r, missing programs %s, archive fails %s, injected %s (%s): status %d, expected %s of %s\nbefore: %s\nafter: %s\ncomplete: %s\ngone elsewhere: %s\nnew elsewhere: %s\n%s" % (
        c["step"], c["hist"], "push" if c["push"] else "rebuild", show(c["input"]), [show(x) for x in c["no"]], c["archive"], c["inject"], [x for x in c["calls"] if " " in x], c["rc"], e["fate"],
        [show(r) for r in e["rev"]], world("pre"), world("post"), [(show(x["rev"])[:8], show(x["full"])) for x in c["content"]], sorted(a - b)[:6], sorted(b - a)[:6], c["stderr"])


def deployed(chk, specs, top, describe=c21_describe):
    D = Deploys(top)
    byid = {}
    cases = []
    for i, s in enumerate(specs):
        s["id"] = i
        byid[i] = s
    for cs in pmap(D.history, specs):
        for c in cs:
            c["id"] = len(cases)
            cases.append(c)
    keep = {c["id"]: (c["hist"], c["step"]) for c in cases}

    def rerun(c):
        h, k = keep[c["id"]]
        c2 = D.history(byid[h])[k]
        return dict(c2, id=c["id"])
    slim = [{k: v for k, v in c.items() if k not in ("stderr", "calls")} for c in cases]
    full = {c["id"]: c for c in cases}
    chk.conform("TraceDeploy", slim, rerun, lambda c, e: describe(dict(full[c["id"]], **c), e))
    return cases


def up(i, ref=b"refs/heads/master"):
    return ("old", rev(i) if i else ZERO, ref)


def C21():
    chk = Check("C21", "model_checking")
    rnd = chk.rng
    r = chk.model_check("MCDeploy", "MCDeploy%d.cfg" % (2 if QUICK else 3), minimum=10000)
    specs = []
    starts = [{"link": "none"}, {"link": "first", "first": True}, {"link": "dangling"}, {"link": "astray"}, {"link": "foreign"}, {"link": "file"}, {"link": "dir"}, {"link": "chain", "first": True},
              {"link": "first", "first": True, "moved": True}, {"link": "none", "first": True}, {"link": "first", "first": True, "long_ago": False}]
    seats = [{}, {"sections": [{"name": "repo:site.git", "symlink": "^/www/live"}], "linkat": "www/live"}, {"sections": [{"name": "repo:site.git", "symlink": "../site-live"}], "linkat": "REPO/../site-live"},
             {"builds": "b/u"}, {"where": "dir"}, {"base": "a base dir"}]
    # every start, what builds do, in every setting
    for s in starts:
        for t in seats:
            for k in ("makefile", "blogcfile"):
                ok = rnd.random() < 0.5
                specs.append(dict(s, **t, revs=[Revision(1, k, traps=rnd.random() < 0.7), Revision(2, k, traps=rnd.random() < 0.7), Revision(3, k, result=rnd.choice(["fail", "signal", "void", "parent"]), at=rnd.randint(0, 9), traps=True)],
                                  ops=[{"kind": "push", "updates": [up(2 if ok else 3)]}, {"kind": "push", "updates": [up(3 if ok else 2)]}, {"kind": "rebuild"}, {"kind": "push", "updates": [up(1)]}]))
    # builds that fail at every point
    for at in range(14):
        for result in ("fail", "signal", "parent"):
            specs.append({"link": "first", "first": True, "revs": [Revision(1, traps=True), Revision(2, rnd.choice(["makefile", "blogcfile"]), result, at, traps=True)], "ops": [{"kind": "push", "updates": [up(2)]}]})
    for k in ("makefile", "blogcfile", "both"):
        for traps in (False, True):
            for bare in (False, True):
                specs.append({"link": "first", "first": True, "revs": [Revision(1, k, traps=traps), Revision(2, k, traps=traps, hide=True), Revision(3, "none", traps=traps), Revision(4, k, bare=bare)], "ops": [{"kind": "push", "updates": [up(2)]}, {"kind": "push", "updates": [up(3)]}, {"kind": "push", "updates": [up(4)]}]})
    # the revision cannot be had, programs are missing
    for k in ("makefile", "blogcfile", "both", "none"):
        for link in ({"link": "none"}, {"link": "first", "first": True}):
            base = dict(link, revs=[Revision(1, "makefile"), Revision(2, k)])
            for arch in ("start", "half", "block", "end", "killed"):
                specs.append(dict(base, ops=[{"kind": "push", "updates": [up(2)], "archive": arch}, {"kind": "push", "updates": [up(2)]}]))
            for no in (("gmake",), ("gmake", "make"), ("blogc-make",), ("tar",), ("git",)):
                specs.append(dict(base, ops=[{"kind": "push", "updates": [up(2)], "no": no}, {"kind": "rebuild", "no": no}, {"kind": "push", "updates": [up(2)]}]))
            specs.append(dict(base, ops=[{"kind": "push", "updates": [up(9)]}, {"kind": "push", "updates": [up(1)]}]))
    specs.append({"revs": [Revision(1)], "sections": [{"name": "repo:site.git", "symlink": "^/hole/live"}], "holes": ["hole"], "ops": [{"kind": "push", "updates": [up(1)]}] * 2})
    # killed, or a call fails, at every step
    deep = [dict(link="none"), dict(link="first", first=True), dict(link="dangling"), dict(link="first", first=True, moved=True, sections=[{"name": "repo:site.git", "symlink": "^/www/live"}], linkat="www/live")]
    for d in deep[:2] if QUICK else deep:
        for traps in (False, True):
            for n in range(1, 26 if not traps else 46):
                for how in ("kill", "fail"):
                    if QUICK and traps and (n + len(specs)) % 2:
                        continue
                    specs.append(dict(d, revs=[Revision(1, traps=traps), Revision(2, traps=traps), Revision(3)], ops=[{"kind": "push", "updates": [up(2)], how: n}, {"kind": "push", "updates": [up(3)]}, {"kind": "rebuild"}]))
    for n in range(1, 20):
        for how in ("kill", "fail"):
            specs.append(dict(revs=[Revision(1, traps=True), Revision(2, result="fail", at=8, traps=True), Revision(3)], link="first", first=True, ops=[{"kind": "push", "updates": [up(2)], how: n}, {"kind": "push", "updates": [up(3)]}]))
            specs.append(dict(revs=[Revision(1, "blogcfile", traps=True)], link="first", first=True, ops=[{"kind": "rebuild", how: n}, {"kind": "rebuild"}]))
    for n in range(1, 12):
        specs.append(dict(revs=[Revision(1, traps=True), Revision(2, traps=True, die=n), Revision(3)], link=rnd.choice(["first", "none"]), first=True, ops=[{"kind": "push", "updates": [up(2)]}, {"kind": "push", "updates": [up(3)]}]))
    # two repositories with the same revisions, in quick succession
    for i in range(12 if QUICK else 60):
        specs.append(dict(revs=[Revision(1, traps=i % 2 == 0), Revision(2)], repos=["site.git", "fork.git"], ops=[dict({"kind": "push", "updates": [up(rnd.choice([1, 1, 1, 2]))]} if j < 2 or rnd.random() < 0.5 else {"kind": "rebuild"}, repo=["site.git", "fork.git"][j % 2] if j < 2 else rnd.choice(["site.git", "fork.git"])) for j in range(7)]))
    # the behaviours of the specification
    hists = sorted({json.dumps(h["hist"]) for h in r.printed("CASE")})
    for h in rnd.sample(hists, min(len(hists), 150 if QUICK else 2500)):
        h = json.loads(h)
        ops = []
        bad = Revision(3, rnd.choice(["makefile", "blogcfile"]), rnd.choice(["fail", "signal", "parent", "void"]), rnd.randint(0, 9), traps=True)
        for o in h:
            f = o["fail"]
            op = {"kind": "push", "updates": [up(o["rev"])]} if o["kind"] == "push" else {"kind": "rebuild"}
            if f == "make":
                op = {"kind": "push", "updates": [up(3)]}
            elif f == "archive":
                op["archive"] = rnd.choice(["start", "half", "end", "killed"])
            elif f == "extract":
                op["no"] = ("tar",)
            elif f == "temp":
                op["fail"] = rnd.randint(1, 5)
            elif f == "link":
                op["fail"] = rnd.randint(8, 16)
            elif f.startswith("kill"):
                op["kill"] = rnd.randint(1, 30)
            ops.append(op)
        specs.append(dict(rnd.choice(starts), **rnd.choice(seats), revs=[Revision(1, rnd.choice(["makefile", "blogcfile"]), traps=rnd.random() < 0.5), Revision(2, rnd.choice(["makefile", "blogcfile"]), traps=rnd.random() < 0.5), bad], ops=ops + [{"kind": "push", "updates": [up(2)]}]))
    with Scratch() as top:
        cases = deployed(chk, specs, top)
        kinds = {}
        for c in cases:
            kinds[c["inject"]] = kinds.get(c["inject"], 0) + 1
        for c in cases[:1] + cases[-2:]:
            chk.sample({"history": c["hist"], "step": c["step"], "input": show(c["input"]), "status": c["rc"], "calls": c["calls"][:25]})
    chk.assumptions += ["git is a stand-in whose archives can fail at any point; make and tar are the real programs, blogc-make runs a script", "one deploy at a time"]
    return chk.finish(histories=len(specs), operations=kinds, bounds="all histories of %d pushes over 2 revisions with a failure or death at any step of the model; deaths and failures at every call of the real hook" % (2 if QUICK else 3))


# --------------------------------------------------------------------------- C22

class Posts:
    """Runs of the hook post-receive."""

    def __init__(self, top):
        self.top, self.n = top, 0
        os.chmod(top, 0o755)
        self.tools, self.nogit = Tools(top), Tools(top, names=("git-shell",))
        self.prog = os.path.join(top, "blogc-git-receiver")
        shutil.copy(build("plain")["blogc-git-receiver"], self.prog)
        os.chmod(self.prog, 0o755)

    def case(self, spec):
        with _lock:
            self.n += 1
            home = os.path.join(self.top, "p%d" % self.n)
        base = os.path.join(home, spec.get("base", "base"))
        log = os.path.join(home, "log")
        try:
            for r in ("site.git", "other.git", "group/site.git", "site.git.old", "site"):
                os.makedirs(os.path.join(base, "repos", r, "hooks"))
                os.symlink(self.prog, os.path.join(base, "repos", r, "hooks", "post-receive"))
            if spec.get("linked"):
                os.rename(os.path.join(base, "repos", "site.git"), os.path.join(home, "store"))
                os.symlink(os.path.join(home, "store"), os.path.join(base, "repos", "site.git"))
            os.symlink("site.git", os.path.join(base, "repos", "alias.git"))
            rd = os.path.join(base, "repos", spec.get("repo", "site.git"))
            secs = []
            if spec.get("ini") is not None:
                text, broken = spec.get("before", ""), spec.get("broken", False)
                for name, mirror, more in spec["ini"]:
                    text += "[%s]\n%s%s" % (name, more, "mirror = %s\n" % mirror.replace("\\", "\\\\") if mirror is not None else "")
                    q = os.path.join(base, "repos", name[5:]) if name.startswith("repo:") else ""
                    mine = q != "" and os.path.exists(q) and os.path.realpath(q) == os.path.realpath(rd)
                    secs.append({"mine": mine, "mirror": {"ok": mirror is not None, "v": bl(mirror or "")}})
                f = os.path.join(base, "blogc-git-receiver.ini")
                if broken == "dir":
                    os.mkdir(f)
                else:
                    with open(f, "wb") as o:
                        o.write((text + ("[never\n" if broken == "section" else "no section\n" if broken == "text" and False else "")).encode())
                if broken:
                    secs = []
            opened(home)
            if spec.get("broken") == "closed":
                os.chmod(os.path.join(base, "blogc-git-receiver.ini"), 0)
                if not ROOTUSER and os.geteuid() == 0:
                    raise CheckError("root reads everything")
            env = {"PATH": (self.nogit if spec.get("nogit") else self.tools).path, "REC_LOG": log, "LC_ALL": "C.UTF-8", "GS_PUSH_RC": str(spec.get("rc", 0)), "GIT_DIR": "."}
            env["BLOGC_GIT_RECEIVER_BASE_DIR" if spec.get("where") == "dir" else "HOME"] = base
            if spec.get("where") == "dir":
                env["HOME"] = "/nonexistent"
            for k in ("pushurl", "url"):
                if spec.get(k) is not None:
                    env["GS_" + k.upper()] = spec[k]
            cwd, argv0 = {"git": (rd, "hooks/post-receive"), "dot": (rd, "./hooks/post-receive"), "abs": (rd, os.path.join(rd, "hooks", "post-receive")), "far": ("/", os.path.join(rd, "hooks", "post-receive")),
                          "hooks": (os.path.join(rd, "hooks"), "./post-receive")}[spec.get("from", "git")]
            if spec.get("from") == "far":
                del env["GIT_DIR"]
            p = subprocess.run([argv0], cwd=cwd, env=env, input=b"%s %s refs/heads/master\n" % (ZERO, rev(1)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, **user())
            return {"id": spec["id"], "pushurl": {"ok": spec.get("pushurl") is not None, "v": bl(spec.get("pushurl") or "")}, "url": {"ok": spec.get("url") is not None, "v": bl(spec.get("url") or "")},
                    "sections": secs, "repo": bl(os.path.realpath(rd)), "fails": spec.get("rc", 0) != 0, "nogit": bool(spec.get("nogit")), "calls": [{"cwd": x["cwd"], "argv": x["argv"]} for x in calls(log)],
                    "rc": p.returncode, "warned": p.stderr.strip() != b"", "real": False, "refs": [], "mirrored": [], "stderr": p.stderr.decode("utf-8", "replace")[-300:]}
        finally:
            shutil.rmtree(home, ignore_errors=True)


def c22_describe(c, e):
    return "post-receive in %s, remote mirror %s %s, sections %s, push fails %s, no git %s: status %d, warned %s, git called %s, mirrored %s, of the repository %s; expected %s\n%s" % (
        show(c["repo"]), [show(c["pushurl"]["v"])] if c["pushurl"]["ok"] else "-", [show(c["url"]["v"])] if c["url"]["ok"] else "-", [(s["mine"], show(s["mirror"]["v"]) if s["mirror"]["ok"] else "-") for s in c["sections"]],
        c["fails"], c["nogit"], c["rc"], c["warned"], [(show(x["cwd"]), [show(a) for a in x["argv"]]) for x in c["calls"]], [(show(m["v"]), [show(r) for r in m["refs"]]) for m in c["mirrored"]], [show(r) for r in c["refs"]],
        "push to " + show(e["v"]) if e["ok"] else "nothing", c.get("stderr", ""))


def c22_posts(rnd):
    specs = []
    mirrors = ["git@example.org:me/site.git", "/srv/mirror.git", "ssh://h/x y.git", "it's", 'say "hi"', "a&b;c|d", "$HOME/x", "`id`", "$(id)", "a\\b", "!x!", "-o", "--all", "mirror", "../m", "caf\u00e9", "x>y<z", "*?[a]", "~/m", "#x", "a=b", "a\tb", "%s%n"]
    own = [("repo:site.git", m, "") for m in mirrors]
    for i, s in enumerate(own):
        for rc in (0, 1, 137):
            specs.append({"ini": [s], "rc": rc, "from": rnd.choice(["git", "dot", "abs", "far", "hooks"])})
    for pu, u in ((None, None), ("p://x", None), (None, "u://y"), ("p://x", "u://y")):
        for ini in (None, [], [("repo:site.git", None, "symlink = /x\n")], [("repo:site.git", "M", "")], [("repo:other.git", "M", "")], [("repo:other.git", "M", ""), ("repo:site.git", "N", "")], [("repo:site.git", "N", ""), ("repo:other.git", "M", "")],
                    [("site.git", "M", "")], [("repo:site", "M", "")], [("repo:site.git.old", "M", "")], [("repo:group/site.git", "M", "")], [("repo:gone.git", "M", ""), ("repo:site.git", "N", "")], [("repo:", "M", "")], [("repo: site.git", "M", "")],
                    [("Repo:site.git", "M", "")], [("repo:site.git/", "M", "")], [("repo:./site.git", "M", "")], [("repo:group/../site.git", "M", "")], [("repo:alias.git", "M", "")], [("repository:site.git", "M", "")],
                    [("global", "M", ""), ("repo:site", "K", ""), ("repo:site.git.old", "L", ""), ("repo:site.git", "N", "other = 1\n")], [("repo:site.git", None, "mirrors = M\nmirro = K\n")]):
            for rc in (0, 1):
                for linked in (False, True):
                    specs.append({"pushurl": pu, "url": u, "ini": ini, "rc": rc, "linked": linked, "from": rnd.choice(["git", "git", "dot", "abs", "far", "hooks"]), "where": rnd.choice(["HOME", "dir"]), "base": rnd.choice(["base", "a base's", "$b"])})
            specs.append({"pushurl": pu, "url": u, "ini": ini, "nogit": True})
            for repo in ("group/site.git", "site", "site.git.old"):
                specs.append({"pushurl": pu, "url": u, "ini": ini, "repo": repo})
        for broken in ("section", "dir") + (("closed",) if ROOTUSER else ()):
            specs.append({"pushurl": pu, "url": u, "ini": [("repo:site.git", "M", "")], "broken": broken})
        specs.append({"pushurl": pu, "url": u, "ini": [("repo:site.git", "M", "")], "before": "# a comment\n\n; another\n"})
    # long lists of repositories
    for n in (10, 300):
        many = [("repo:site%d.git" % i, "X%d" % i, "") for i in range(n)]
        for k in (0, n // 2, n):
            specs.append({"ini": many[:k] + [("repo:site.git", "N", "")] + many[k:]})
    return specs


class Gits:
    """A server with the real git, on which histories of pushes are made."""

    def __init__(self, top):
        self.top, self.n = top, 0
        os.chmod(top, 0o755)
        self.progs = build("plain")
        self.tools = Tools(top, names=(), real=("git", "git-shell", "git-receive-pack", "git-upload-pack", "git-upload-archive", "sh", "mkdir", "tar", "gzip", "cat", "cp", "rm", "ln", "touch", "gmake", "make", "true", "false", "test", "env", "printf"))
        for n in ("blogc-git-receiver", "blogc-make", "blogc"):
            shutil.copy(self.progs[n], os.path.join(self.tools.path, n))
            os.chmod(os.path.join(self.tools.path, n), 0o755)
        self.prog = os.path.join(self.tools.path, "blogc-git-receiver")

    def run(self, args, cwd, env, check=True, **kw):
        p = subprocess.run(args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, **user(), **kw)
        if check and p.returncode != 0:
            raise CheckError("%r: %r" % (args, p.stderr[-400:]))
        return p

    def history(self, spec):
        with _lock:
            self.n += 1
            home = os.path.join(self.top, "g%d" % self.n)
        try:
            return self._history(spec, home)
        finally:
            shutil.rmtree(home, ignore_errors=True)

    def site(self, d, i, kind):
        """Revision i: a site that succeeds or fails, with make or with blogc-make."""
        for n in os.listdir(d):
            if n != ".git":
                p = os.path.join(d, n)
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

        def put(n, t):
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        put("about.txt", "revision %d" % i)
        if kind in ("make", "badmake"):
            put("Makefile", "all: $(OUTPUT_DIR)/a/index.html $(OUTPUT_DIR)/link\n$(OUTPUT_DIR)/a/index.html: about.txt\n\tmkdir -p $(OUTPUT_DIR)/a\n\tcp about.txt $@\n\t%s\n$(OUTPUT_DIR)/link:\n\tmkdir -p $(OUTPUT_DIR)\n\tln -s a/index.html $@\n" % ("false" if kind == "badmake" else "true"))
        elif kind in ("blogc", "badblogc"):
            put("blogcfile", "[global]\nSITE_TITLE = Site %d\nSITE_TAGLINE = t\nAUTHOR_NAME = a\nAUTHOR_EMAIL = a@b\nBASE_DOMAIN = http://example.org\n%s\n[posts]\nfirst\nsecond\n[pages]\nabout\n[copy]\nabout.txt\n" % (i, "" if kind == "blogc" else "broken"))
            put("templates/main.tmpl", "{{ SITE_TITLE }} {% block listing %}{{ TITLE }};{% endblock %}{% block entry %}{{ CONTENT }}{% endblock %}\n")
            for n in ("post/first", "post/second", "about"):
                put("content/%s.txt" % n, "TITLE: %s\nDATE: 2020-01-0%d\n-----\ntext of %d\n" % (n, 1 + i % 9, i))

    def _history(self, spec, home):
        base, www = os.path.join(home, "base"), os.path.join(home, "www")
        work, mirrors = os.path.join(home, "work"), os.path.join(home, "mirrors")
        for x in (base, www, work, mirrors, os.path.join(home, "tmp")):
            os.makedirs(x)
        rd = os.path.join(base, "repos", "site.git")
        server = {"PATH": self.tools.path, "SHELL": self.prog, "HOME": base, "LC_ALL": "C.UTF-8", "TZ": "UTC"}
        ssh = os.path.join(home, "ssh")
        with open(ssh, "w") as f:
            f.write("#!/bin/sh\nexec env -i %s blogc-git-receiver -c \"$2\"\n" % " ".join("%s='%s'" % x for x in server.items()))
        os.chmod(ssh, 0o755)
        names = ["one.git", "two x.git"]
        ini = ""
        sections = []
        if spec.get("ini") is not None:
            ini = "[repo:site.git]\n"
            link = spec.get("symlink")
            if link:
                link = link.replace("^", home)
                ini += "symlink = %s\n" % link
            sections = [{"mine": True, "has": bool(link), "symlink": bl(link or "")}]
            m = spec["ini"]
            if m:
                ini += "mirror = %s\n" % os.path.join(mirrors, m)
            with open(os.path.join(base, "blogc-git-receiver.ini"), "w") as f:
                f.write("[repo:other.git]\nmirror = %s\n" % os.path.join(mirrors, "two x.git") + ini)
        opened(home)
        client = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.path.join(home, "tmp"), "LC_ALL": "C.UTF-8", "GIT_SSH_COMMAND": ssh, "GIT_SSH_VARIANT": "simple", "GIT_CONFIG_NOSYSTEM": "1",
                  "GIT_AUTHOR_NAME": "x", "GIT_AUTHOR_EMAIL": "x@x", "GIT_COMMITTER_NAME": "x", "GIT_COMMITTER_EMAIL": "x@x"}
        for n in names:
            self.run(["git", "init", "-q", "--bare", os.path.join(mirrors, n)], home, client)
            self.run(["git", "--git-dir", os.path.join(mirrors, n), "config", "receive.denyDeleteCurrent", "ignore"], home, client)
        self.run(["git", "init", "-q", "-b", "work", work], home, client)
        self.run(["git", "remote", "add", "site", "user@host:site.git"], work, client)
        revs = []
        for i, kind in enumerate(spec["revs"], 1):
            self.site(work, i, kind)
            opened(work)
            self.run(["git", "add", "-A"], work, client)
            self.run(["git", "commit", "-q", "--allow-empty", "-m", "r%d" % i], work, client)
            h = self.run(["git", "rev-parse", "HEAD"], work, client).stdout.strip()
            full = b"-"
            good = kind in ("make", "blogc")
            if good:
                o = os.path.join(home, "tmp", "o%d" % i)
                if kind == "make":
                    self.run(["make", "OUTPUT_DIR=" + o], work, server)
                else:
                    self.run(["blogc-make", "all"], work, dict(server, OUTPUT_DIR=o), executable=os.path.join(self.tools.path, "blogc-make"))
                full = token(plain(o))
                shutil.rmtree(o)
                self.run(["git", "clean", "-q", "-d", "-f", "-x"], work, client)
            revs.append({"rev": h, "kind": {"make": "makefile", "badmake": "makefile", "blogc": "blogcfile", "badblogc": "blogcfile", "none": "none"}[kind], "result": "ok" if good or kind == "none" else "fail", "full": full})
        builddir = os.path.join(base, "builds")
        lp = os.path.join(rd, "htdocs")
        if spec.get("symlink") and spec.get("ini") is not None:
            lp = spec["symlink"].replace("^", home)
            lp = lp if lp.startswith("/") else os.path.join(rd, lp)

        def refs(d):
            if not os.path.isdir(d):
                return []
            out = self.run(["git", "--git-dir", d, "show-ref"], home, client, check=False).stdout
            return sorted(out.splitlines())

        def look():
            k, t, real = "none", b"", b""
            if os.path.lexists(lp):
                k = kind_of(os.lstat(lp).st_mode)
                if k == "link":
                    t = os.fsencode(os.readlink(lp))
                    real = os.fsencode(os.path.realpath(lp)) if os.path.exists(lp) else b""
            w = {"place": {"k": k, "t": bl(t), "real": bl(real)}, "builds": [], "refs": refs(rd)}
            if os.path.isdir(builddir):
                for b in sorted(os.listdir(builddir)):
                    w["builds"].append({"path": bl(os.path.join(builddir, b)), "tok": bl(token(plain(os.path.join(builddir, b))))})
            skip = {os.fsencode(x) for x in (builddir, os.path.join(base, "repos"), mirrors, work, os.path.join(home, "tmp"), lp, os.path.normpath(lp))}
            w["rest"] = [{"p": bl(os.path.join(os.fsencode(home), p)), "k": v[0], "v": bl(hashlib.sha1(v[1]).hexdigest()[:8])} for p, v in sorted(plain(home, skip).items())]
            return w

        rv, posts = [], []
        w = look()
        for step, op in enumerate(spec["ops"]):
            if op.get("config") and os.path.isdir(rd):
                for a in op["config"]:
                    self.run(["git", "config"] + [x.replace("^", mirrors) for x in a], rd, client)
            wanted = {r.split(b" ", 1)[1]: r.split(b" ", 1)[0] for r in w["refs"]}
            lines, args = b"", []
            for ref, i in op["updates"]:
                new = revs[i - 1]["rev"] if i else ZERO
                old = wanted.get(ref.encode(), ZERO)
                if old == new:
                    continue
                lines += b"%s %s %s\n" % (old, new, ref.encode())
                if i:
                    wanted[ref.encode()] = new
                    args.append("+%s:%s" % (new.decode(), ref))
                else:
                    del wanted[ref.encode()]
                    args.append(":" + ref)
            if not args:
                continue
            p = self.run(["git", "push", "-q", "site"] + args, work, client, check=False)
            w2 = look()
            rv.append({"push": True, "input": bl(lines), "repo": bl(rd), "sections": sections, "places": [{"path": bl(lp), "dir": bl(os.path.realpath(os.path.dirname(lp))), "pre": w["place"], "post": w2["place"]}],
                       "builddir": bl(builddir), "oldbuilds": [], "builds1": w["builds"], "builds2": w2["builds"], "temps1": [], "temps2": [], "rest1": w["rest"], "rest2": w2["rest"],
                       "content": [{"rev": bl(r["rev"]), "kind": r["kind"], "result": r["result"], "full": bl(r["full"])} for r in revs], "no": [], "archive": False, "holes": [], "inject": "none", "rc": p.returncode,
                       "real": True, "refs1": [bl(x) for x in w["refs"]], "refs2": [bl(x) for x in w2["refs"]], "wanted": [bl(x) for x in sorted(b"%s %s" % (v, k) for k, v in wanted.items())],
                       "hist": spec["id"], "step": step, "stderr": p.stderr.decode("utf-8", "replace")[-900:], "calls": []})
            if p.returncode == 0:
                conf = {}
                for k in ("pushurl", "url"):
                    q = self.run(["git", "config", "--local", "remote.mirror." + k], rd, client, check=False)
                    v = q.stdout.strip()
                    conf[k] = {"ok": q.returncode == 0, "v": bl(v)}
                m = spec.get("ini")
                name = os.path.join(mirrors, m) if m else ""
                broken = "gone" in (m or "") if not (conf["pushurl"]["ok"] or conf["url"]["ok"]) else any("gone" in show(conf[k]["v"]) for k in (["pushurl"] if conf["pushurl"]["ok"] else ["url"]))
                posts.append({"pushurl": conf["pushurl"], "url": conf["url"], "sections": [{"mine": False, "mirror": {"ok": True, "v": bl(os.path.join(mirrors, "two x.git"))}}] * (m is not None) + [{"mine": True, "mirror": {"ok": bool(m), "v": bl(name)}}] * (m is not None),
                              "repo": bl(rd), "fails": broken, "nogit": False, "calls": [], "rc": 0, "warned": "warning: " in rv[-1]["stderr"], "real": True, "refs": [bl(x) for x in w2["refs"]],
                              "mirrored": [{"v": bl(os.path.join(mirrors, n)), "refs": [bl(x) for x in refs(os.path.join(mirrors, n))], "before": []} for n in names], "hist": spec["id"], "step": step, "stderr": rv[-1]["stderr"]})
            w = w2
        return rv, posts


REFNAMES = ["refs/heads/master", "refs/heads/main", "refs/heads/topic", "refs/heads/maint", "refs/tags/master", "refs/tags/v1", "refs/heads/x/main"]


def c22_real(rnd, n):
    specs = []
    kinds = ["make", "blogc", "badmake", "none", "badblogc"]
    for i in range(n):
        ops = []
        for j in range(rnd.randint(2, 6)):
            op = {"updates": [(r, rnd.choice([1, 2, 3, 4, 5, 1, 2, 0])) for r in rnd.sample(REFNAMES, rnd.choice([1, 1, 2, 3]))]}
            if j == 0:
                op["updates"] = [("refs/heads/" + rnd.choice(["master", "main"]), rnd.choice([1, 2]))]
            ops.append(op)
        # a mirror must see a different place only if the others stay empty: set once, before or after the first push
        conf = rnd.choice([None, None, ["pushurl", "^/one.git"], ["url", "^/one.git"], ["url", "^/gone.git"]])
        ini = rnd.choice([None, "", "one.git", "gone.git"])
        if conf:
            ini = rnd.choice([None, "", "gone.git"]) if "one" in conf[1] and "gone" not in conf[1] else ini if ini != "one.git" else ""
            ops[1]["config"] = [["remote.mirror." + conf[0], conf[1]]]
        # (git does not delete the current branch otherwise, after the hook has run)
        ops[1].setdefault("config", []).append(["receive.denyDeleteCurrent", "ignore"])
        specs.append({"id": i, "revs": kinds, "ops": ops, "ini": ini, "symlink": rnd.choice([None, "^/www/live", "../live"])})
    return specs


def sha256(i):
    return hashlib.sha256(b"revision %d" % i).hexdigest().encode()


def C22():
    chk = Check("C22", "model_checking")
    rnd = chk.rng
    r = chk.model_check("MCRefs", "MCRefs%d.cfg" % (2 if QUICK else 3), minimum=100)
    lists = sorted(json.dumps(c["ups"]) for c in r.printed("CASE"))
    if len(lists) > 6000:
        lists = rnd.sample(lists, 6000)
    specs = []
    starts = [{"link": "first", "first": True}, {"link": "first", "first": True}, {"link": "none"}, {"link": "dangling"}]
    for l in lists:
        ups = json.loads(l)
        long = rnd.random() < 0.2
        R = [Revision(0)] + [Revision(u["rev"], name=sha256(u["rev"]) if long else None) for u in ups]
        zero = b"0" * (64 if long else 40)
        # (what a deleted branch was is not zero)
        u = [(("old" if x["gone"] or rnd.random() < 0.5 else "new"), zero if x["gone"] else R[k + 1].rev, x["branch"].encode()) for k, x in enumerate(ups)]
        specs.append(dict(rnd.choice(starts), revs=R, ops=[{"kind": "push", "updates": u}]))
    # long lists, and names around the two
    def crowd(n):
        return [("new", rev(100 + i), b"refs/heads/%s" % (b"m%d" % i if i % 3 else b"master%d" % i if i % 2 else b"%d/main" % i)) for i in range(n)]
    for n in (1, 20, 300, 2000):
        for want in ((b"refs/heads/master", 2), (b"refs/heads/main", 2), (None, 0)):
            for k in (0, n // 2, n):
                c = crowd(n)
                if want[0]:
                    c.insert(k, ("new", rev(2), want[0]))
                specs.append(dict(link="first", first=True, revs=[Revision(1), Revision(2)], ops=[{"kind": "push", "updates": c}]))
    names = [b"refs/heads/masters", b"refs/heads/mast", b"refs/heads/MASTER", b"refs/heads/mai", b"refs/heads/mainx", b"refs/heads/maintenance", b"refs/heads/release/main", b"refs/heads/main/x", b"refs/tags/main", b"refs/remotes/origin/master", b"refs/heads", b"refs/heads-main", b"refs/pull/1/main", b"HEAD", b"refs/notes/commits",
             b"refs/heads/" + b"x" * 200, "refs/heads/café".encode(), b"refs/heads/a\"b$c`d", b"refs/heads/refs/heads/main", b"xrefs/heads/main", b"refs/Heads/main", b"refs/heads//main", b"refs/heads/ma", b"refs/heads/masterm", b"refs/for/main", b"main", b"master"]
    for n in names:
        for more in ((), (("new", rev(3), b"refs/heads/main"),), (("old", rev(3), b"refs/heads/master"),)):
            for o in (0, 1):
                u = [("new", rev(2), n)] + list(more)
                specs.append(dict(rnd.choice(starts), revs=[Revision(1), Revision(2), Revision(3)], ops=[{"kind": "push", "updates": u[::-1] if o else u}]))
    specs.append(dict(link="first", first=True, revs=[Revision(1)], ops=[{"kind": "push", "updates": []}]))
    # rebuilding by hand what is live
    for start in [{"link": "first", "first": True}, {"link": "none"}, {"link": "dangling"}, {"link": "astray"}, {"link": "chain", "first": True}, {"link": "first", "first": True, "moved": True}]:
        for frm in ("repo", "up", "abs", "hooks"):
            for seat in ({}, {"sections": [{"name": "repo:site.git", "symlink": "^/www/live"}], "linkat": "www/live"}, {"sections": [{"name": "repo:site.git", "symlink": "../site-live"}], "linkat": "REPO/../site-live"},
                         {"sections": [{"name": "repo:other.git", "symlink": "^/www/live"}, {"name": "repo:site.git", "symlink": None}]}, {"builds": "b-u/x-y"}, {"base": "a-base-1 dir"}):
                for long in (False, True):
                    R = [Revision(1), Revision(2, name=sha256(2) if long else None), Revision(3, result="fail")]
                    if rnd.random() < (0.5 if QUICK else 1):
                        specs.append(dict(start, **seat, revs=R, ops=[{"kind": "rebuild", "from": frm}, {"kind": "push", "updates": [("new", R[1].rev, b"refs/heads/main")]}, {"kind": "rebuild", "from": frm}, {"kind": "push", "updates": [("new", R[0].rev, b"refs/heads/dev")]},
                                                                  {"kind": "push", "updates": [("new", R[2].rev, b"refs/heads/master")]}, {"kind": "rebuild", "from": frm}]))
    with Scratch() as top:
        os.chmod(top, 0o755)
        a, b, g = (os.path.join(top, x) for x in "abg")
        for x in (a, b, g):
            os.mkdir(x)
        cases = deployed(chk, specs, a)
        posts = c22_posts(rnd)
        for i, s in enumerate(posts):
            s["id"] = i
        P = Posts(b)
        done = pmap(P.case, posts)
        chk.conform("TracePost", done, lambda c: P.case(posts[c["id"]]), c22_describe)
        # with the real git
        reals = c22_real(rnd, 60 if QUICK else 600)
        G = Gits(g)
        c1, c2 = [], []
        for x, y in pmap(G.history, reals):
            c1 += x
            c2 += y
        for k, cs in (("TraceDeploy", c1), ("TracePost", c2)):
            for i, c in enumerate(cs):
                c["id"] = i
            which = 0 if k == "TraceDeploy" else 1

            def rerun(c):
                return dict(next(x for x in G.history(reals[c["hist"]])[which] if x["step"] == c["step"]), id=c["id"])
            keep = {c["id"]: c for c in cs}
            chk.conform(k, [{x: v for x, v in c.items() if x not in ("stderr",)} for c in cs], rerun, lambda c, e: (c21_describe if which == 0 else c22_describe)(dict(keep[c["id"]], **c), e))
        for c in cases[:1] + cases[-1:]:
            chk.sample({"input": show(c["input"])[:400], "status": c["rc"]})
        for c in done[:1] + done[-1:]:
            chk.sample({"sections": len(c["sections"]), "git": [[show(x) for x in y["argv"]] for y in c["calls"]]})
    chk.assumptions += ["git is a stand-in, except in the histories with the real git, which push through git-shell to a server in a scratch directory"]
    return chk.finish(lists=len(lists), histories=len(specs), posts=len(posts), real_pushes=len(c1), mirrored=len(c2), bounds="all lists of up to %d updates over 12 references, deleted or not" % (2 if QUICK else 3))
