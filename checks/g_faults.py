"""C17 failures."""
import itertools, resource, signal, stat, threading
from vp import *
from sitelib import *

FILL = "".join("filler %04d\n" % i for i in range(400))        # 4800 bytes
FUTURE = 4102444800 * 10**9
PREP = ["setpriv", "--reuid=%d" % NOBODY, "--regid=%d" % NOBODY, "--clear-groups", "--"]


def nobody(argv):
    return PREP + argv if os.geteuid() == 0 else argv


# ------------------------------------------------------------------------ builds

G = "[global]\nAUTHOR_NAME = a\nAUTHOR_EMAIL = e\nSITE_TITLE = s\nSITE_TAGLINE = t\nBASE_DOMAIN = http://d\n"
PAGE = FILL + "{% block entry %}{{ TITLE }} {{ CONTENT }}{% endblock %}{% block listing_entry %}<{{ TITLE }}>{% endblock %}" \
    "{% block listing %}{{ TITLE }}: {{ RAW_CONTENT }}{% endblock %}{% ifdef CURRENT_PAGE %}{{ CURRENT_PAGE }}/{{ LAST_PAGE }}{% endif %}\n"


def post(i, tags, n=40):
    return ("TITLE: p%d\nDATE: 2001-02-%02d\nTAGS: %s\n-----\n%s" % (i, i + 1, tags, "".join("text %d of %d\n" % (j, i) for j in range(n)))).encode()


def sites():
    rv = []
    src = {"content/post/p%d.txt" % i: post(i, ["x", "x y", "y"][i], 40 * (i + 1)) for i in range(3)}
    lists = "[posts]\np0\np1\np2\n[tags]\nx\ny\n"
    rv.append({"cfg": G + "[settings]\nposts_per_page = 2\natom_posts_per_page = 1\nlisting_entry = e\n" + lists + "[pages]\nabout\na/b\n[copy]\nf.css\nd\ng\n",
               "files": dict(src, **{"content/e.txt": b"TITLE: entry\n---\nx\n", "content/about.txt": post(8, "", 5), "content/a/b.txt": post(9, "", 90),
                                     "templates/main.tmpl": PAGE.encode(), "f.css": b"c" * 5000, "d/x": b"d" * 9000, "g": b"short"}),
               "entries": ["d/x"]})
    rv.append({"cfg": G + "[settings]\nposts_per_page = 1\nblog_prefix = blog\natom_template = at\nmain_template = m\nposts_sort = 1\nhtml_order = ASC\n" + lists,
               "files": dict({k.replace("content/", "content/blog/"): v for k, v in src.items()}, **{"templates/at": PAGE.encode() + b"atom", "templates/m": PAGE.encode()})})
    rv.append({"cfg": G + "[settings]\ncontent_dir = c\npost_prefix = .\nhtml_ext = .html\n[posts]\np0\np1\n[copy]\nq/r\nq/s\n",
               "files": {"c/p0.txt": post(0, "x", 300), "c/p1.txt": post(1, "x", 10), "templates/main.tmpl": PAGE.encode(), "q/r": b"r" * 4097, "q/s": b"s" * 20000},
               "outdir": "o/u", "entries": []})
    rv.append({"cfg": G + "[pages]\none\ntwo\nthree/four\n", "files": {"content/one.txt": post(1, "", 3), "content/two.txt": post(2, "", 200), "content/three/four.txt": post(3, "", 1),
                                                                    "templates/main.tmpl": PAGE.encode()}})
    rv.append({"cfg": G + "[copy]\nf\nd\n", "files": {"f": b"f" * 4096, "d/e/x": b"x" * 12288}, "entries": ["d/e/x"]})
    for s in rv:
        s["cfg"] = s["cfg"].encode()
        s.setdefault("entries", [])
    return rv


class Builder:
    def __init__(self, d):
        self.d = d
        self.progs = {v: build(v) for v in ("plain", "embedded")}
        self.n, self.lock = 0, threading.Lock()
        stub()

    def place(self, site):
        with self.lock:
            self.n += 1
            base = os.path.join(self.d, "b%d" % self.n)
        root = os.path.join(base, "r")
        os.makedirs(root)
        write(os.path.join(root, "blogcfile"), site["cfg"], FUTURE)
        for p, t in site["files"].items():
            write(os.path.join(root, p), t, FUTURE)
        return root

    def snap(self, root):
        files, _ = snapshot(root)
        return {os.path.relpath(p, os.fsencode(root)): t for p, (t, _) in files.items()}

    def make(self, root, site, env, prog="plain", args=(), pre=None, restore=True):
        e = dict(env)
        if site.get("outdir"):
            e["OUTPUT_DIR"] = os.path.join(root, site["outdir"])
        if os.geteuid() == 0:
            for d, ds, fs in os.walk(root):
                for f in ds + fs:
                    os.lchown(os.path.join(d, f), NOBODY, NOBODY)
            os.chown(root, NOBODY, NOBODY)
        p = self.progs[prog]
        argv = [p["blogc"], "-m"] if prog == "embedded" else [p["blogc-make"]]
        r = run(nobody(argv + list(args)), cwd=root, env=e, preexec=pre, restore=restore, timeout=60)
        if r.timeout:
            raise CheckError("blogc-make timed out")
        return r

    def plan(self, site):
        """What an unfaulted build does, in order."""
        root = self.place(site)
        logf = root + ".log"
        open(logf, "w").close()
        os.chmod(logf, 0o666)
        r = self.make(root, site, {"BLOGC": stub(), "STUB_LOG": logf, "STUB_REAL": self.progs["plain"]["blogc"], "STUB_RUN": "1"})
        if r.rc != 0:
            log(r.err.decode("utf-8", "replace"))
            raise CheckError("a site does not build")
        rel = lambda p: os.fsdecode(os.path.relpath(p, os.fsencode(root)))
        files = self.snap(root)
        rv, extra = [], []
        for c in read_log(logf):
            ins = [rel(s) for s in c["sources"]] + ([rel(c["entry"])] if c["entry"] else []) + ["blogcfile", "program"]
            if c["print"] is not None:
                extra += ins
                continue
            t = rel(c["template"])
            if not t.startswith(".."):
                ins.append(t)
            rv.append({"out": rel(c["out"]), "ins": ins + extra, "printed": bool(extra)})
            extra = []
        out = os.path.join(site.get("outdir") or "_build")
        for line in site["cfg"].decode().partition("[copy]\n")[2].split("\n"):
            for f in [x for x in site["files"] if x == line or x.startswith(line + "/")] if line else []:
                rv.append({"out": os.path.join(out, f), "ins": [f, "blogcfile"] + extra, "copy": True})
        made = {os.fsdecode(p) for p in files} - set(site["files"]) - {"blogcfile"}
        if made != {i["out"] for i in rv}:
            raise CheckError("unexpected outputs: %r" % sorted(made ^ {i["out"] for i in rv}))
        for i in rv:
            i["text"] = files[os.fsencode(i["out"])]
        shutil.rmtree(os.path.dirname(root))
        return rv

    def execute(self, spec):
        """spec: site, old (outputs exist), what: (kind, ...), prog, args (clean)"""
        site, plan, what = spec["site"], spec["site"]["plan"], spec["what"]
        root = self.place(site)
        P = lambda p: os.path.join(root, p)
        f = {"unread": [], "sealed": [], "limit": -1, "child": 0}
        clean = spec.get("clean")
        items = [dict(i, text=None) if clean else i for i in plan]
        if spec["old"]:
            for k, i in enumerate(plan):
                # (not the last one, sometimes)
                if spec["old"] != "some" or k % 2:
                    write(P(i["out"]), b"old", PAST)
        env, pre, restore = {}, None, True
        if spec["prog"] == "plain":
            env["BLOGC"] = self.progs["plain"]["blogc"]
        kind = what[0]
        any_ = False
        if kind == "input":
            p, how = what[1:]
            f["unread"] = [p]
            if how == "mode":
                os.chmod(P(p), 0)
            elif how == "missing":
                os.unlink(P(p))
            elif how == "parent":
                d = os.path.dirname(p)
                os.chmod(P(d), 0)
                f["unread"] = [x for x in site["files"] if x.startswith(d + "/")]
            elif how == "search":
                d = os.path.dirname(p)
                os.chmod(P(d), 0o444)
                f["unread"] = [x for x in site["files"] if x.startswith(d + "/")]
            else:
                os.unlink(P(p))
                if how == "dir":
                    os.mkdir(P(p))
                else:
                    os.symlink({"mem": "/proc/self/mem", "dangling": "nowhere", "loop": os.path.basename(p)}[how], P(p))
        elif kind == "output":
            p, how = what[1:]
            below = lambda d: [i["out"] for i in plan if i["out"].startswith(d + "/")]
            d = os.path.dirname(p)
            if how == "dir":
                if os.path.lexists(P(p)):
                    os.unlink(P(p))
                write(P(p + "/keep"), b"k")
                f["sealed"] = [p]
            elif how == "full":
                if os.path.lexists(P(p)):
                    os.unlink(P(p))
                os.makedirs(P(d), exist_ok=True)
                os.symlink("/dev/full", P(p))
                f["sealed"] = [p]
            elif how == "dangling":
                if os.path.lexists(P(p)):
                    os.unlink(P(p))
                os.makedirs(P(d), exist_ok=True)
                os.symlink("no/where", P(p))
                f["sealed"] = [p]
            elif how == "file":
                shutil.rmtree(P(d), ignore_errors=True)
                write(P(d), b"file")
                f["sealed"] = below(d)
            elif how == "mode":
                write(P(p), b"old")
                os.chmod(P(p), 0o444)
                f["sealed"] = [p]
            elif how == "ro":
                os.makedirs(P(d), exist_ok=True)
                f["sealed"] = [o for o in below(d) if not os.path.lexists(P(o)) or clean]
                if clean:
                    f["sealed"] = [o for o in below(d) if os.path.dirname(o) == d and os.path.lexists(P(o))]
                else:
                    # (directories below it that exist can be written to)
                    def where(o):
                        o = os.path.dirname(o)
                        return o if os.path.isdir(P(o)) else where(o)
                    f["sealed"] = [o for o in f["sealed"] if where(o) == d]
                os.chmod(P(d), 0o555)
        elif kind == "limit":
            n = f["limit"] = what[1]
            restore = what[2] != "ignored"
            pre = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        elif kind == "child":
            n, mode = what[1:]
            f["child"] = n
            logf = root + ".log"
            open(logf, "w").close()
            os.chmod(logf, 0o666)
            env.update(BLOGC=stub(), STUB_LOG=logf, STUB_REAL=self.progs["plain"]["blogc"], STUB_RUN="1")
            env["STUB_FAILP" if mode.startswith("print-") else "STUB_FAIL"] = "%d %s" % (n, mode.replace("print-", ""))
        elif kind == "program":
            f["unread"] = ["program"]
            p = P("prog")
            if what[1] == "dir":
                os.mkdir(p)
            elif what[1] != "missing":
                write(p, b"#!/bin/sh\nexit 0\n" if what[1] == "mode" else b"\x7fELFnot\n" if what[1] == "garbage" else b"#!/no/interpreter\n" if what[1] == "interp" else
                      b"#!/bin/sh\nkill -9 $$\n" if what[1] == "dies" else b"#!/bin/sh\nexit 1\n")
                os.chmod(p, 0o644 if what[1] == "mode" else 0o755)
            env["BLOGC"] = p
            spec["prog"] = "plain"
        elif kind == "resource":
            any_ = True
            which = {"as": resource.RLIMIT_AS, "nofile": resource.RLIMIT_NOFILE, "nproc": resource.RLIMIT_NPROC, "stack": resource.RLIMIT_STACK, "data": resource.RLIMIT_DATA}[what[1]]
            pre = lambda: resource.setrlimit(which, (what[2], what[2]))
        before = self.snap(root)
        if clean:
            # only what is there is removed
            items = [i for i in items if os.path.lexists(P(i["out"]))]
        r = self.make(root, site, env, spec["prog"], ["clean"] if clean else [], pre, restore)
        after = self.snap(root)
        subprocess.run(["chmod", "-R", "u+rwX", root], stderr=subprocess.DEVNULL)
        shutil.rmtree(os.path.dirname(root))
        # (shorter texts for TLC)
        short = lambda t: bl(t) if len(t) <= 12 else bl(hashlib.md5(t).digest()[:6])
        names = {}
        nm = lambda p: names.setdefault(p if isinstance(p, bytes) else os.fsencode(p), len(names))
        return {"id": spec["id"], "any": any_, "pre": [[[nm(p)], short(t)] for p, t in sorted(before.items())], "post": [[[nm(p)], short(t)] for p, t in sorted(after.items())],
                "plan": [{"out": [nm(i["out"])], "ins": [[nm(x)] for x in sorted(set(i["ins"]))] if not clean else [], "text": short(i["text"]) if i["text"] is not None else [-1],
                          "size": len(i["text"] or b"")} for i in items],
                "f": {"unread": [[nm(x)] for x in f["unread"]], "sealed": [[nm(x)] for x in f["sealed"]], "limit": f["limit"], "child": f["child"]},
                "ok": r.rc == 0, "err": r.err != b"" or r.rc < 0 and restore is True, "rc": r.rc, "stderr": r.err[-300:].decode("utf-8", "replace"),
                "names": [os.fsdecode(n) for n in names], "what": [str(x) for x in what] + [str(spec["old"]), spec["prog"], "clean" if clean else "build"]}


def describe(c, e):
    n = c["names"]
    t = "%s with fault %s: status %d (%s)\n" % (c["what"][-1], " ".join(c["what"][:-1]), c["rc"], c["stderr"].strip())
    t += "expected: %s\n" % ("anything that is a prefix of the build" if e["first"] < 0 else "success" if e["first"] == 0 else
                             "a failure at output %d of %d, %s" % (e["first"], len(c["plan"]), n[c["plan"][e["first"] - 1]["out"][0]]))
    pre, post = {x[0][0]: x[1] for x in c["pre"]}, {x[0][0]: x[1] for x in c["post"]}
    text = {i["out"][0]: i["text"] for i in c["plan"]}
    for k, i in enumerate(c["plan"]):
        o = i["out"][0]
        s = "complete" if post.get(o, [-1]) == i["text"] else "absent" if o not in post else "as it was" if post[o] == pre.get(o) else "something else"
        if e["first"] == 0 and s != "complete" or e["first"] > 0 and (k + 1 < e["first"] and s != "complete" or k + 1 >= e["first"] and post.get(o) != pre.get(o)):
            t += "  %s is %s\n" % (n[o], s)
    for p in sorted(set(pre) | set(post)):
        if p not in text and pre.get(p) != post.get(p):
            t += "  %s was %s\n" % (n[p], "created" if p not in pre else "removed" if p not in post else "changed")
    return t


def build_specs(r, bs):
    rv = []
    for s in bs:
        plan = s["plan"]
        k = lambda *w, **kw: rv.append(dict({"site": s, "what": w, "old": r.choice(["", "all", "some"]), "prog": r.choice(["plain", "plain", "embedded"])}, **kw))
        copied = {x for i in plan if i.get("copy") for x in i["ins"]} - {"blogcfile"}
        for p in list(s["files"]) + ["blogcfile"]:
            for how in ("mode", "dir", "mem", "dangling", "loop", "missing", "parent", "search"):
                if how in ("parent", "search") and ("/" not in p or p in copied and how == "parent" and p not in s["entries"]):
                    continue
                if how == "search" and p in copied and p not in s["entries"]:
                    continue
                if p in copied and (how == "dir" or how == "missing" and p in s["entries"]):
                    continue            # (is then something else to copy)
                if p in copied and how == "parent" and "/" in os.path.dirname(p):
                    pass
                for old in ("", "all"):
                    k("input", p, how, old=old)
        for i in plan:
            for how in ("dir", "full", "file", "dangling", "mode", "ro"):
                k("output", i["out"], how)
                if how in ("ro", "mode"):
                    k("output", i["out"], how, old="" if how == "ro" else "all")
            # (otherwise, directories that become empty cannot be removed, after their files)
            d = os.path.dirname(i["out"])
            if all(os.path.dirname(j["out"]) == d or not j["out"].startswith(d + "/") for j in plan):
                k("output", i["out"], "ro", old="all", clean=True)
                k("output", i["out"], "ro", old="some", clean=True)
            k("output", i["out"], "dir", old="some", clean=True)
        sizes = sorted({len(i["text"]) for i in plan})
        for z in sizes:
            for n in (z - 1, z, z - 100, 4096 * (z // 4096), 4096 * (z // 4096) + 1):
                if n >= 2500 or not any("program" in i["ins"] for i in plan):
                    k("limit", n, "ignored")
                    if not copied:
                        k("limit", n, "killed")
        nc = sum(not i.get("copy") for i in plan)
        for n in range(1, nc + 1):
            for mode in ("exit", "kill", "partial", "pkill"):
                k("child", n, mode, prog="plain")
            if plan[n - 1].get("printed"):
                for mode in ("print-exit", "print-kill"):
                    k("child", n, mode, prog="plain")
        for how in ("missing", "dir", "mode", "garbage", "interp", "dies", "exit"):
            k("program", how)
            k("program", how, old="all")
        for n in range(3, 14):
            k("resource", "nofile", n)
        for n in (0, 1, 2, 3, 5):
            k("resource", "nproc", n)
        for n in [2500000 + 250000 * j + r.randrange(250000) for j in range(0, 24)]:
            k("resource", "as", n)
        for n in range(0, 400000, 40000):
            k("resource", "data", n)
        for c in (False, True):
            k("none", clean=c, old="all")
    return rv


# ------------------------------------------------------------------------ single pages

class Pager:
    """Runs of blogc on one page, with faults."""

    def __init__(self, d):
        self.d = d
        self.progs = {v: build(v)["blogc"] for v in ("plain", "embedded")}
        self.n, self.lock = 0, threading.Lock()

    def execute(self, spec):
        """spec: size, listing, what, old, prog, to ("o": a file, "-": standard output), value (what is printed)"""
        with self.lock:
            self.n += 1
            w = os.path.join(self.d, "p%d" % self.n)
        P = lambda p: os.path.join(w, p)
        n = spec["size"]
        text = b"x" * (n - 1) + b"\n" if n else b""
        os.mkdir(w)
        write(P("in/a"), b"TITLE: a\n---\na\n")
        write(P("in/b"), b"TITLE: b\n---\nb\n")
        write(P("in/e"), b"TITLE: e\n---\ne\n")
        write(P("t/t"), text)
        os.mkdir(P("q"))
        what, out = spec["what"], spec.get("out", "q/o")
        f = {"unread": [], "sealed": [], "limit": -1, "child": 0}
        ins, argv, stdin, size, ok_out = ["t/t", "in/a"], ["-t", "t/t", "in/a"], b"", n, text
        if spec["mode"] == "listing":
            ins, argv, stdin = ["t/t", "in/a", "in/b", "in/e", "stdin"], ["-l", "-i", "-e", "in/e", "-t", "t/t", "in/a"], b"in/b\n"
        elif spec["mode"] == "print":
            v = b"v" * (n - 1)
            ins, argv, size, ok_out = ["in/a"], ["-D", b"V=" + v, "-p", "V", "in/a"], n, v + b"\n"
        elif spec["mode"] in ("-h", "-v"):
            ins, argv, ok_out = [], [spec["mode"]], run([self.progs[spec["prog"]], spec["mode"]]).out
            size = len(ok_out)
        if spec["to"] == "o":
            argv += ["-o", out]
        elif spec.get("dash"):
            argv += ["-o", "-"]
        if spec["old"] and spec["to"] == "o":
            write(P(out), b"old")
        stdout, pre, restore, fds, name = None, None, True, [], out if spec["to"] == "o" else "(standard output)"
        kind = what[0]
        any_ = False
        if kind == "input":
            p, how = what[1:]
            f["unread"] = [p]
            if p == "stdin":
                if how == "closed":
                    pre = lambda: os.close(0)
                else:
                    stdin = os.open(w if how == "dir" else "/proc/self/mem" if how == "mem" else P("wo"), os.O_WRONLY | os.O_CREAT if how == "wo" else os.O_RDONLY)
                    fds.append(stdin)
            elif how == "mode":
                os.chmod(P(p), 0)
            elif how == "parent":
                d = os.path.dirname(p)
                os.chmod(P(d), 0)
                f["unread"] = [x for x in ins if x.startswith(d)]
            else:
                os.unlink(P(p))
                if how == "dir":
                    os.mkdir(P(p))
                elif how != "missing":
                    os.symlink({"mem": "/proc/self/mem", "dangling": "nowhere", "loop": os.path.basename(p)}[how], P(p))
        elif kind == "output":
            how = what[1]
            f["sealed"] = [name]
            if spec["to"] == "-":
                if how == "full":
                    stdout = os.open("/dev/full", os.O_WRONLY)
                elif how == "closed":
                    pre = lambda: os.close(1)
                elif how == "ro":
                    stdout = os.open("/dev/null", os.O_RDONLY)
                elif how in ("pipe", "sigpipe"):
                    a, stdout = os.pipe()
                    os.close(a)
                    restore = how == "sigpipe"
                if stdout is not None:
                    fds.append(stdout)
            else:
                if os.path.lexists(P(out)) and how not in ("mode", "ro"):
                    os.unlink(P(out))
                if how == "dir":
                    write(P(out + "/keep"), b"k")
                elif how == "full":
                    os.symlink("/dev/full", P(out))
                elif how == "loop":
                    os.symlink("o", P(out))
                elif how == "dangling":
                    os.symlink("no/where", P(out))
                elif how == "file":
                    os.rmdir(P("q"))
                    write(P("q"), b"file")
                elif how == "mode":
                    write(P(out), b"old")
                    os.chmod(P(out), 0o444)
                elif how == "ro":
                    if spec["old"]:
                        f["sealed"] = []
                    os.chmod(P("q"), 0o555)
        elif kind == "limit":
            f["limit"] = what[1]
            restore = False
            pre = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (what[1], what[1]))
            if spec["to"] == "-":
                stdout = os.open(P("so"), os.O_RDWR | os.O_CREAT)
                fds.append(stdout)
        elif kind == "resource":
            any_ = True
            which = {"as": resource.RLIMIT_AS, "nofile": resource.RLIMIT_NOFILE, "data": resource.RLIMIT_DATA}[what[1]]
            pre = lambda: resource.setrlimit(which, (what[2], what[2]))
        if os.geteuid() == 0:
            subprocess.run(["chown", "-R", "-h", "%d:%d" % (NOBODY, NOBODY), w], check=True)
        snap = lambda: {os.fsdecode(os.path.relpath(p, os.fsencode(w))): t for p, (t, _) in snapshot(w)[0].items()}
        before = snap()
        try:
            r = run(nobody([self.progs[spec["prog"]]] + argv), stdin=stdin, cwd=w, preexec=pre, stdout=stdout, restore=restore)
        finally:
            for fd in fds:
                os.close(fd)
        if r.timeout:
            raise CheckError("blogc timed out: %r %r" % (argv, what))
        after = snap()
        for k in (before, after):
            k.pop("wo", None)
        if spec["to"] == "-":
            so = after.pop("so", None)
            before.pop("so", None)
            if r.rc == 0:
                after[name] = so if so is not None else r.out
        elif r.rc == 0 and r.out != b"":
            after["(standard output)"] = r.out
        subprocess.run(["chmod", "-R", "u+rwX", w], stderr=subprocess.DEVNULL)
        shutil.rmtree(w)
        short = lambda t: bl(t) if len(t) <= 12 else bl(hashlib.md5(t).digest()[:6])
        names = {}
        nm = lambda p: names.setdefault(p, len(names))
        return {"id": spec["id"], "any": any_, "pre": [[[nm(p)], short(t)] for p, t in sorted(before.items())], "post": [[[nm(p)], short(t)] for p, t in sorted(after.items())],
                "plan": [{"out": [nm(name)], "ins": [[nm(x)] for x in ins], "text": short(ok_out), "size": size}],
                "f": {"unread": [[nm(x)] for x in f["unread"]], "sealed": [[nm(x)] for x in f["sealed"]], "limit": f["limit"], "child": 0},
                "ok": r.rc == 0, "err": r.err != b"" or r.rc < 0 and (any_ or what[-1] == "sigpipe"), "rc": r.rc, "stderr": r.err[-300:].decode("utf-8", "replace"),
                "names": list(names), "what": [str(x) for x in what] + [spec["mode"], str(spec["old"]), spec["prog"], "page of %d bytes to %s" % (size, name)]}


def page_specs(r):
    rv = []
    sizes = [0, 1, 2, 100, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288, 65535, 65536, 65537, 200000]
    k = lambda mode, to, n, *w, **kw: rv.append(dict({"mode": mode, "to": to, "size": n, "what": w, "old": r.random() < 0.5, "prog": r.choice(["plain", "embedded"]), "dash": r.random() < 0.5}, **kw))
    for n in sizes:
        for to in "o-":
            for mode in ("page", "listing", "print"):
                if mode == "print" and (to == "o" or not 0 < n < 100000):
                    continue
                for m in sorted({0, 1, n - 1, n, n + 1, n - 4096, n // 2, 4096 * (n // 4096), 4095, 4096, 4097}):
                    if m >= 0:
                        k(mode, to, n, "limit", m)
            k("page", to, n, "none")
            k("listing", to, n, "none")
    for mode, fs in (("page", ["in/a", "t/t"]), ("listing", ["in/a", "in/b", "in/e", "t/t", "stdin"]), ("print", ["in/a"])):
        for p in fs:
            for how in ("dir", "closed", "mem", "wo") if p == "stdin" else ("mode", "dir", "mem", "dangling", "loop", "missing", "parent"):
                for to in "o-":
                    if mode == "print" and to == "o":
                        continue
                    for old in (False, True):
                        k(mode, to, 50, "input", p, how, old=old)
    for n in (1, 50, 4096, 5000, 70000):
        for mode in ("page", "listing"):
            for how in ("dir", "full", "loop", "dangling", "file", "mode", "ro"):
                for old in (False, True):
                    k(mode, "o", n, "output", how, old=old)
            for how in ("full", "closed", "ro", "pipe", "sigpipe"):
                k(mode, "-", n, "output", how)
        for how in ("full", "closed", "ro", "pipe", "sigpipe"):
            k("print", "-", n, "output", how)
    for p in ("plain", "embedded"):
        for m in ("-h", "-v"):
            for how in ("full", "closed", "ro", "pipe", "sigpipe"):
                k(m, "-", 0, "output", how, prog=p)
            for n in (0, 1, 11, 12, 13, 100, 5000):
                k(m, "-", 0, "limit", n, prog=p)
    for n in (50, 5000, 200000):
        for mode in ("page", "listing"):
            for to in "o-":
                for x in [("nofile", j) for j in range(0, 10)] + [("as", 2500000 + r.randrange(100000) + 100000 * j) for j in range(30)] + [("data", 20000 * j) for j in range(20)]:
                    k(mode, to, n, "resource", *x)
    return rv


def C17():
    chk = Check("C17", "model_checking")
    chk.assumptions = [
        "Faults are made with file modes (as an unprivileged user), directories and special files in place of files, limits of the size of files and of resources, and a stand-in for the compiler "
        "that fails, dies or leaves an incomplete output in a chosen call; a disk that fails later, after a successful close, is not simulated.",
        "Nothing else changes the files of a site during a build. Short resources may be reported at any step of a build.",
        "What a build does without faults, and in which order, is taken from an unfaulted run (C12 decides what it has to be).",
        "A compiler that is killed while it writes a page with no blogc-make around it (a signal) leaves what it wrote."]
    chk.model_check("MCFaults", "MCFaults2.cfg" if QUICK else "MCFaults3.cfg", minimum=100000, timeout=800)
    rnd = chk.rng
    with Scratch() as d:
        os.chmod(d, 0o755)
        pg, bd = Pager(d), Builder(d)
        pages = page_specs(rnd)
        bs = sites()
        for s in bs:
            s["plan"] = bd.plan(s)
        builds = build_specs(rnd, bs)
        if not QUICK:
            pages += [x for _ in range(3) for x in page_specs(rnd)]
            builds += [x for _ in range(6) for x in build_specs(rnd, bs)]
        for i, s in enumerate(pages + builds):
            s["id"] = i
        t = time.time()
        specs = pages + builds
        go = lambda s: (bd if "site" in s else pg).execute(dict(s))
        cases = pmap(go, specs)
        log("  %d runs with faults, %.1fs" % (len(cases), time.time() - t))
        for c in cases[:: max(1, len(cases) // 5)]:
            chk.sample({"fault": c["what"], "ok": c["ok"], "outputs": len(c["plan"])})
        chk.conform("TraceFaults", cases, lambda c: go(specs[c["id"]]), describe)
    return chk.finish(exhaustive=False, pages=len(pages), builds=len(builds), failed=sum(not c["ok"] for c in cases), successful=sum(c["ok"] for c in cases),
                      bound="plans of up to %d outputs under all sets of faults and all pages up to 12 bytes over all devices (TLC); pages of 20 sizes, five sites, one fault at a time" % (2 if QUICK else 3))
