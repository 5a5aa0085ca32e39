"""C11 the command line of the compiler."""
import itertools, threading
from vp import *

TREE = {
    "a.txt": b"TITLE: ta\nDATE: 2001-02-03\nTAGS: x y\n---\n# Ha\n\nbody *a*\n",
    "b.txt": b"TITLE: tb\nDATE: 2002-02-03 10:11\nTAGS: x\n---\nbody b\n...\nrest\n",
    "c.md": b"TITLE: tc\nDATE: 2000-12-31\n---\n- i\n- j\n",
    "d/e.f.txt": b"A: local\nDATE: 2001-02-03 00:00:01\n---\nx\n",
    "d/ g": b"\xef\xbb\xbfTITLE: tg\nDATE: 1999-01-01\n---\n",
    "nodate.txt": b"TITLE: n\n---\nn\n",
    "baddate.txt": b"TITLE: bd\nDATE: 2001-13-01\n---\nn\n",
    "e.txt": b"TITLE: te\nA: entry\n---\nentry\n",
    "bad.txt": b"title: x\n---\n",
    "badutf.txt": b"TITLE: \xff\n---\n",
    "empty.txt": b"",
    "toc.txt": b"TOCTREE_MAXDEPTH: 1\n---\n# a\n\n## b\n",
    "badtoc.txt": b"TOCTREE_MAXDEPTH: x\n---\n# a\n\n## b\n",
    "\xc3\xa9 x.txt": b"TITLE: blank\nDATE: 2010-01-01\n---\nq\n",
    "#h.txt": b"TITLE: hash\nDATE: 2011-01-01\n---\nq\n",
    "--": b"TITLE: dashes\n---\nq\n",
    "A=2": b"TITLE: def\nDATE: 2012-01-01\n---\nq\n",
    "t.tmpl": b"{{ A }} {% block entry %}E {{ TITLE }}{{ A }} {{ CONTENT }}{% endblock %}{% block listing %}L {{ FILENAME }} {{ TITLE }} {{ DATE_FORMATTED }};{% endblock %}"
              b"{% block listing_empty %}none{% endblock %}{% block listing_entry %}<{{ TITLE }}{{ A }}>{% endblock %}{% block listing_entry %}<2{{ TITLE }}>{% endblock %}\n",
    "u.tmpl": b"{% ifdef A %}A={{ A }}{% else %}no A{% endif %} {{ BLOGC_VERSION }} {{ CURRENT_PAGE }}/{{ LAST_PAGE }} {{ FILENAME_FIRST }}-{{ FILENAME_LAST }}"
              b"{% block entry %} {{ FILENAME }} {{ EXCERPT }}{{ RAW_CONTENT_3 }} {{ TOCTREE }}{% endblock %}{% block listing_once %}{% foreach L %}{{ FOREACH_ITEM }}.{% endforeach %}{% endblock %}"
              b"{% block listing %} {{ FILENAME }}{% endblock %}",
    "none.tmpl": b"",
    "bad.tmpl": b"{% block entry %}x",
    "bad2.tmpl": b"x {{ A",
    "badutf.tmpl": b"x\xc3",
    "old.html": b"what was there before\n",
}
GOOD = ["a.txt", "b.txt", "c.md", "d/e.f.txt", "d/ g", "\xc3\xa9 x.txt", "#h.txt", "./a.txt", "d/../b.txt", "A=2", "x/../a.txt"]
BADSRC = ["nodate.txt", "baddate.txt", "bad.txt", "badutf.txt", "empty.txt", "badtoc.txt", "missing.txt", "d", "", "a.txt/", "toc.txt"]
TMPLS = ["t.tmpl", "t.tmpl", "u.tmpl", "u.tmpl", "none.tmpl", "old.html"]
BADTMPL = ["bad.tmpl", "bad2.tmpl", "badutf.tmpl", "missing.tmpl", "d", ""]
OUTS = ["o.html", "o.html", "n/o.html", "n/m/o.html", "old.html", "-", "d/o.html", "./p.html", "d//o.html", "a.txt", "t.tmpl"]
BADOUTS = ["d", "a.txt/o", "", "n/", "a.txt/b/c", "."]
DEFS = ["A=1", "A=2", "A=", "A==", "A= b c ", "A=\xc3\xa9", "A=a=b", "B_1=x", "L=x y  z", "FILTER_TAG=x", "FILTER_TAG=y", "FILTER_SORT=1", "FILTER_REVERSE=1", "FILTER_PAGE=1",
        "FILTER_PAGE=2", "FILTER_PER_PAGE=1", "FILTER_PER_PAGE=2", "DATE_FORMAT=%d %b %Y", "TITLE=global", "FILENAME=g", "BLOGC_VERSION=9", "TOCTREE_MAXDEPTH=0", "Z9_=", "A=-x", "A=\n",
        "FILTER_SORT=0", "CURRENT_PAGE=7", "DATE_FIRST=z"]
BADDEFS = ["A", "=1", "a=1", "A b=1", "1=2", "_A=1", "A-=1", "", "=", "\xc3\xa9=1", "A=\xff", "A\xc3=1", "Aa=1", "A.B=1", " A=1", "A =1", "A=1\x80"]
NAMES = ["TITLE", "A", "B_1", "FILENAME", "CONTENT", "DATE", "DATE_FORMATTED", "TITLE_1", "LAST_PAGE", "CURRENT_PAGE", "NEXT_PAGE", "FILENAME_FIRST", "DATE_LAST_FORMATTED",
         "BLOGC_VERSION", "MISSING", "", "A_FORMATTED_1", "RAW_CONTENT", "a", "DATE_FIRST", "EXCERPT_5", "TOCTREE", "FOREACH_ITEM"]


def enc(x):
    return x.encode("latin-1")


class CliRunner:
    def __init__(self, progs, d):
        self.progs, self.d = progs, d
        self.n, self.free, self.lock = 0, [], threading.Lock()
        self.top = sorted({enc(p).decode().split("/")[0] for p in TREE} | {"d", "x"})
        self.help = {k: run([p, "-h"]).out for k, p in progs.items()}

    def run(self, spec):
        """spec: id, argv (latin-1 texts), stdin (bytes), prog"""
        tree = TREE
        with self.lock:
            self.n += 1
            w = os.path.join(self.d, "w%d" % self.n)
        # (a run that leaves the tree as it was passes it on to another one)
        try:
            w = self.free.pop()
        except IndexError:
            os.makedirs(os.path.join(w, "d"))
            os.makedirs(os.path.join(w, "x"))
            for p, t in tree.items():
                with open(os.path.join(os.fsencode(w), enc(p)), "wb") as f:
                    f.write(t)
        r = run([self.progs[spec["prog"]]] + [enc(x) for x in spec["argv"]], stdin=spec.get("stdin", b""), cwd=w)
        if r.timeout:
            raise CheckError("blogc timed out: %r" % spec["argv"])
        after = []
        wb = os.fsencode(w)
        for d, ds, fs in os.walk(wb):
            for f in fs:
                p = os.path.join(d, f)
                after.append([bl(os.path.relpath(p, wb)), bl(open(p, "rb").read())])
        files = sorted([bl(enc(p)), bl(t)] for p, t in tree.items())
        if sorted(after) == files and sorted(os.listdir(w)) == self.top:
            self.free.append(w)
        else:
            shutil.rmtree(w, ignore_errors=True)
        old = dict((bytes(p), t) for p, t in files)
        new = dict((bytes(p), t) for p, t in after)
        changes = [[bl(p), {"ok": p in new, "v": new.get(p, [])}] for p in sorted(set(old) | set(new)) if old.get(p) != new.get(p)]
        said = [enc(x) for x in spec["argv"]] + [spec.get("stdin", b"")]
        return {"id": spec["id"], "argv": [bl(enc(x)) for x in spec["argv"]], "stdin": bl(spec.get("stdin", b"")),
                
                # (the files that are named)
                "files": [x for x in files if any(os.path.basename(bytes(x[0])) in y for y in said)],
                "dirs": [bl(x) for x in ("d", "x")], "help": bl(self.help[spec["prog"]]),
                "ok": r.rc == 0, "out": bl(r.out), "err": r.err != b"" and 0 < r.rc < 90, "changes": changes, "rc": r.rc}


def describe(c, e):
    t = "blogc %s (standard input %r): status %d, expected %s\n" % (
        " ".join(repr(show(a)) for a in c["argv"]), show(c["stdin"])[:300], c["rc"], e["kind"])
    if c["out"] != e["out"]:
        t += "shown %r\nexpected %r\n" % (show(c["out"])[:500], show(e["out"])[:500])
    if c["changes"] != e["changes"]:
        t += "changed files: %s\nexpected %s\n" % ([(show(p), show(v["v"]) if v["ok"] else None) for p, v in c["changes"]], [(show(p), show(v["v"])) for p, v in e["changes"]])
    if not c["ok"] and not c["err"]:
        t += "no error message, or died\n"
    return t


def file_list(r, names):
    out = ""
    for n in names:
        if r.random() < 0.25:
            out += r.choice(["# x", "#", "", "   ", "\t", " # " + n, "#" + n]) + r.choice(["\n", "\n", "\r\n", "\r"])
        out += r.choice(["", "", "", " ", "\t ", "    "]) + n + r.choice(["", "", "", " ", "\t", " \t", "\f"]) + r.choice(["\n", "\n", "\n", "\r\n", "\r", "\n\n"])
    out += r.choice(["", "", "", "#", "# last", "  ", "\n", "#\n"])
    if r.random() < 0.3:
        out = out.rstrip("\r\n")
    return enc(out)


def rand_run(r):
    good = r.random() < 0.55                  # nothing wrong, or one thing
    wrong = None if good else r.choice(["src", "src", "tmpl", "out", "def", "opt", "entry", "count", "missing", "print", "any"])
    listing = r.random() < 0.6
    k = r.choice([0, 1, 2, 3, 3, 5]) if listing else 1
    if wrong == "count":
        listing, k = False, r.choice([0, 2, 3])
    srcs = [r.choice(GOOD) for _ in range(k)]
    if wrong == "src":
        srcs.insert(r.randrange(len(srcs) + 1), r.choice(BADSRC))
        if not listing:
            srcs = srcs[:1] if r.random() < 0.5 else [r.choice(BADSRC)]
    piped = r.choice([0, 0, 0, 1, 1, 2])      # how many come from standard input
    lst = [] if not piped else srcs[-r.randrange(len(srcs) + 1):] if srcs else []
    if len(lst) == len(srcs):
        own = []
    else:
        own = srcs[:len(srcs) - len(lst)]
    units = []

    def o(letter, v=None):
        if v is None:
            return ["-" + letter + (r.choice(["x", "l", "--"]) if letter in "ild" and r.random() < 0.06 else "")]
        if v != "" and r.random() < 0.5:
            return ["-" + letter + v]
        return ["-" + letter, v]
    if listing:
        units.append(o("l"))
    if piped or r.random() < 0.05:
        units.append(o("i"))
    if r.random() < 0.1:
        units.append(o("d"))
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        units.append(o("D", r.choice(DEFS)))
    if wrong == "def":
        units.append(o("D", r.choice(BADDEFS)))
    if r.random() < (0.5 if listing else 0.06):
        for _ in range(r.choice([1, 1, 2, 3])):
            units.append(o("e", r.choice(["e.txt", "e.txt", "a.txt", "", "d/e.f.txt", "toc.txt"])))
    if wrong == "entry":
        units.append(o("e", r.choice(BADSRC[2:7] + ["missing.txt"])))
    if r.random() < 0.25 or wrong == "print":
        units.append(o("p", r.choice(NAMES)))
        if r.random() < 0.5:
            units.append(o("t", r.choice(TMPLS + BADTMPL)))
    if wrong != "missing" and r.random() < 0.96:
        for _ in range(r.choice([1, 1, 1, 1, 2])):
            units.append(o("t", r.choice(TMPLS)))
    if wrong == "tmpl":
        units.append(o("t", r.choice(BADTMPL)))
    if r.random() < 0.5 or wrong == "out":
        for _ in range(r.choice([1, 1, 1, 2])):
            units.append(o("o", r.choice(OUTS)))
        if wrong == "out":
            units.append(o("o", r.choice(BADOUTS)))
    if wrong == "opt":
        units.append([r.choice(["-x", "-", "--", "--help", "-L", "-I", "-\xc3\xa9", "-1", "-m", "-T", "-help", "-version", "-h", "-v", "-q"])])
    if wrong == "any":
        units.append([r.choice(["-h", "-v", "-hx", "-vv", "--", "", "-d", "-i", "-l", "-o-", "-e", "-D", "-t", "-p", "-o"])])
    r.shuffle(units)
    for s in own:                              # the sources keep their order, anywhere
        pass
    at = sorted(r.randrange(len(units) + 1) for _ in own)
    for i, s in reversed(list(zip(at, own))):
        if not s.startswith("-"):
            units.insert(i, [s])
    argv = [x for u in units for x in u]
    if r.random() < 0.05:
        argv = argv[:r.randrange(len(argv) + 1)]
    if r.random() < 0.06:
        argv.append(r.choice(["-e", "-D", "-t", "-p", "-o"]))
    return {"argv": argv, "stdin": file_list(r, lst) if piped else r.choice([b"", b"a.txt\n", b"missing"])}


def pairs(r):
    """Every pair of options with values around a run that works, attached and separate, before and after."""
    base = ["-l", "a.txt", "b.txt", "-t", "t.tmpl"]
    opts = [["-D", "A=1"], ["-DA=2"], ["-eb.txt"], ["-e", "e.txt"], ["-e", ""], ["-pTITLE"], ["-p", "A"], ["-pLAST_PAGE"], ["-DFILTER_PAGE=1"], ["-o", "o.html"], ["-oq.html"],
            ["-o", "-"], ["-o-"], ["-tu.tmpl"], ["-t", "none.tmpl"], ["-t", "bad.tmpl"], ["-h"], ["-v"], ["-d"], ["-i"], ["-l"], ["-x"], ["-"], ["c.md"], ["missing.txt"], [""], ["-Da=1"],
            ["-D", "A"], ["-D", ""], ["-p", ""], ["-t", ""], ["-DFILTER_SORT=1"], ["-DFILTER_REVERSE=yes"], ["-o", "d"], ["-e", "missing.txt"], ["-lx"], ["-id"]]
    rv = []
    for x in opts:
        for y in opts + [[]]:
            for single in (False, True):
                b = ["a.txt", "-tt.tmpl"] if single else base
                i = r.randrange(4)
                rv.append({"argv": x + b + y if i == 0 else b + x + y if i == 1 else x + y + b if i == 2 else b[:1] + x + b[1:2] + y + b[2:] if not single else b[:1] + x + y + b[1:],
                           "stdin": r.choice([b"c.md\n", b"#x\n\n d/ g", b""])})
    return rv


def lists(r):
    pool = ["a.txt\n", "b.txt\r\n", " c.md \n", "\n", "#\n", "# a.txt\n", "\t#b.txt\r", "  \n", "a.txt", "#", " ", "\r\n", "#h.txt\n", "./#h.txt\n", "a.txt # b\n", "d/ g\n", "\tb.txt\t\n"]
    rv = []
    for k in (1, 2, 3):
        for p in itertools.product(pool, repeat=k):
            rv.append({"argv": ["-l", "-i", "-t", "u.tmpl"] if len(rv) % 2 else ["-lti", "-i", "-tu.tmpl", "-l", "b.txt"], "stdin": enc("".join(p))})
    return rv


def long_ones(r):
    """Sizes around the limits of buffers and tables."""
    rv = []
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257):
        names = [r.choice(["a.txt", "b.txt", "c.md", "d/e.f.txt"]) for _ in range(n)]
        rv.append({"argv": ["-l", "-tt.tmpl"] + names})
        rv.append({"argv": ["-l", "-i", "-tt.tmpl"], "stdin": enc("\n".join(names))})
        rv.append({"argv": ["-l", "-i", "-tu.tmpl", "c.md"] + names, "stdin": enc("# x\n" + "\r\n".join(names) + "\n")})
        rv.append({"argv": ["-l", "-tu.tmpl"] + [x for i in range(n) for x in ("-D", "K%d=%d" % (i, i))] + ["-p", "K%d" % (n - 1)]})
        rv.append({"argv": ["-tu.tmpl", "-DA=" + "v" * n, "a.txt"]})
        rv.append({"argv": ["-pA" + "B" * n, "-DA" + "B" * n + "=x", "a.txt"]})
        rv.append({"argv": ["-l", "-tt.tmpl"] + ["-ee.txt"] * n})
        rv.append({"argv": ["-l", "-i", "-tu.tmpl"], "stdin": b" " * n + b"a.txt" + b"\t" * n + b"\n#" + b"x" * n + b"\nb.txt"})
    return rv


def C11():
    chk = Check("C11", "model_checking")
    chk.model_check("MCCli", "MCCli4.cfg", minimum=2000000)
    r = chk.model_check("MCCli", "MCCli3.cfg", minimum=80000)
    rnd = chk.rng
    small = r.printed("CASE")
    if len(small) != 18279:
        raise CheckError("the model printed %d behaviours" % len(small))
    runs = [c for c in small if c["st"] == "run"]
    if QUICK:
        small = rnd.sample(small, 800) + rnd.sample(runs, 1000)
    text = lambda a: bytes(a).decode("latin-1")
    specs = [{"argv": [text(a) for a in c["argv"]], "stdin": [b"", b"a.txt\n", b"# x\nb.txt"][i % 3]} for i, c in enumerate(small)]
    # the same with what makes a page, around them
    for c in rnd.sample(runs, 500 if QUICK else 5000):
        av = [text(a) for a in c["argv"]]
        specs.append({"argv": ["-l", "-tt.tmpl"] + av, "stdin": b"c.md\n"})
        specs.append({"argv": av + ["b.txt", "-tu.tmpl"]})
    p, l = pairs(rnd), lists(rnd)
    specs += p if not QUICK else rnd.sample(p, 1000)
    specs += l if not QUICK else l[:306] + rnd.sample(l, 400)
    specs += long_ones(rnd)
    for x in DEFS + BADDEFS:
        for v in (["-D" + x] if x else ["-D", ""], ["-D", x]):
            specs.append({"argv": v + ["-tu.tmpl", "a.txt"]})
            specs.append({"argv": ["-tt.tmpl", "-l", "a.txt", "b.txt"] + v})
    specs += [rand_run(rnd) for _ in range(2500 if QUICK else 40000)]
    for i, s in enumerate(specs):
        s["id"] = i
        s["prog"] = "embedded" if i % 4 == 3 and not any(a.startswith("-m") for a in s["argv"]) else "plain"
    with Scratch() as d:
        rn = CliRunner({"plain": build("plain")["blogc"], "embedded": build("embedded")["blogc"]}, d)
        t = time.time()
        cases = pmap(rn.run, specs)
        log("  %d runs, %.1fs" % (len(cases), time.time() - t))
        for c in cases[:: max(1, len(cases) // 5)]:
            chk.sample({"argv": [show(a) for a in c["argv"]], "ok": c["ok"], "out": show(c["out"])[:100]})
        chk.conform("TraceCli", cases, lambda c: rn.run(specs[c["id"]]), describe)
    return chk.finish(exhaustive=False, runs=len(cases), successful=sum(c["ok"] for c in cases), pages_written=sum(c["ok"] and c["changes"] != [] for c in cases),
                      bound="argument vectors of up to 4 of 26 arguments (TLC), replays of those of up to 3; pairs of options, definitions, file lists of up to 3 of 17 lines, random runs")
