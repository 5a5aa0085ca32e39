"""C07 content blocks, C08 inline markup, C09 table of contents."""
import itertools
from vp import *

NAMES = ["FILENAME", "RAW_CONTENT", "CONTENT", "EXCERPT", "FIRST_HEADER", "DESCRIPTION", "TOCTREE"]


class SourceRunner:
    """Executes blocg for sources and records what every variable has become."""

    def __init__(self, blogc, scratch):
        self.blogc, self.scratch = blogc, scratch

    def run(self, spec):
        """spec: id, src (bytes), file (path below a scratch directory), depth (str or None), names, stdin"""
        d = tempfile.mkdtemp(dir=self.scratch)
        names = spec.get("names", NAMES)
        t = os.path.join(d, "template~")
        with open(t, "w") as f:
            f.write("{% block entry %}" + "".join("{%% ifdef %s %%}={{ %s }}{%% else %%}?{%% endif %%}\1" % (n, n) for n in names)
                    + "{% endblock %}")
        rel = spec.get("file", "post.txt")
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(spec["src"])
        argv = [self.blogc, "-t", t]
        if spec.get("depth") is not None:
            argv += ["-D", "TOCTREE_MAXDEPTH=" + spec["depth"]]
        if spec.get("stdin"):
            r = run(argv + ["-i"], cwd=d, stdin=("# list\n\n  " + rel + " \n").encode())
        else:
            r = run(argv + ["--" if rel.startswith("-") else rel] if False else argv + [rel], cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        ok = r.rc == 0
        parts = r.out.split(b"\1") if ok else []
        shown = [{"ok": x[:1] == b"=", "v": bl(x[1:])} for x in parts[:-1]]
        if ok and (parts[-1] != b"" or any(x[:1] not in (b"=", b"?") for x in parts[:-1])):
            shown = [{"ok": False, "v": bl(r.out)}]
        return {"id": spec["id"], "src": bl(spec["src"]), "file": bl(rel),
                "depth": {"ok": spec.get("depth") is not None, "v": bl(spec.get("depth") or "")},
                "names": [bl(n) for n in names], "ok": ok, "shown": shown,
                "err": (r.err != b"" and r.rc in (0, 1)) if not ok else True, "rc": r.rc}


def describe(c, e):
    names = [show(n) for n in c["names"]]
    if c["ok"] != e["ok"]:
        return "source %r: %s (status %d), expected to be %s" % (show(c["src"])[:1500], "accepted" if c["ok"] else "rejected", c["rc"],
                                                                 "accepted" if e["ok"] else "rejected")
    return "source %r\n" % show(c["src"])[:1500] + "\n".join(
        "%s: %r\n  expected %r" % (n, show(a["v"])[:900] if a["ok"] else None, show(b["v"])[:900] if b["ok"] else None)
        for n, a, b in zip(names, c["shown"] + [{"ok": False, "v": []}] * 20, e["shown"]) if a != b)


def execute(chk, specs, d, variant="plain"):
    rn = SourceRunner(build(variant)["blogc"], d)
    for i, s in enumerate(specs):
        s["id"] = i
    cases = pmap(rn.run, specs)
    chk.conform("TraceSource", cases, lambda c: rn.run(specs[c["id"]]), describe)
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        chk.sample({"source": show(c["src"])[:300], "accepted": c["ok"], "shown": [show(x["v"])[:200] if x["ok"] else None for x in c["shown"]][:3]})
    return {"executions": len(cases), "accepted": sum(1 for c in cases if c["ok"]),
            "rejected": sum(1 for c in cases if not c["ok"]), "bytes": sum(len(c["src"]) for c in cases)}


class C:
    """random contents"""

    def __init__(self, r):
        self.r = r

    def p(self, x):
        return self.r.random() < x

    WORDS = ["a", "foo", "bar", "B", "x1", "é", "ção", "<b>", "a&b", "\"q\"", "it's", "1", "10", "C3", "http://x.y/z?a=1&b=2", "~", ":", ";", ",",
             "=", "{{ A }}", "{% x %}", "(", ")", "]", "#", ">", "+", ".", "\t", "%d", "$HOME", "\\n"]
    MARK = ["*", "**", "_", "__", "`", "``", "[", "]", "[[", "]]", "(", ")", "![", "](", "](u)", "!", "-", "--", "---", "----", "\\", " ", "  ",
            "   ", "\\*", "\\_", "\\`", "\\[", "\\]", "\\(", "\\)", "\\\\", "\\!", "\\-", "\\a", "\\<", "***", "```", " -", "- ", "[]", "[](u)", "()"]

    def word(self):
        return self.r.choice(self.WORDS)

    def complete(self, n):
        k = self.r.randrange(9)
        b = self.inline(n - 1)
        u = self.r.choice(["u", "http://a.b/c_d*e", "x\\)y", "", "a b", "<", "&amp;", "[z]", "\"", "a\\\\"])
        sp = self.r.choice(["", "", " ", "\n", " \t", "\r\n"])
        return ["*%s*" % b, "**%s**" % b, "_%s_" % b, "__%s__" % b, "`%s`" % b, "``%s``" % b, "[%s]%s(%s)" % (b, sp, u),
                "![%s]%s(%s)" % (b, sp, u), "[[%s]]" % u][k]

    def inline(self, n=3):
        out = []
        for _ in range(self.r.choice([1, 1, 2, 3, 5])):
            x = self.r.random()
            if x < 0.45 or n <= 0:
                out.append(self.word())
            elif x < 0.7:
                out.append(self.complete(n))
            else:
                out.append(self.r.choice(self.MARK))
            out.append(self.r.choice(["", " ", " ", "  ", ""]))
        return "".join(out)

    def soup(self, n):
        return "".join(self.r.choice(self.MARK + ["a", "b", " ", "x", "é", "<", "&", "\n"]) for _ in range(n))

    def text(self):
        return self.inline(2) if self.p(0.7) else self.r.choice(["foo", "bar baz", "x", "Ab c", ""])

    def block(self, depth=2):
        r = self.r
        k = r.randrange(15)
        if k <= 2:
            return [self.text() or "p" for _ in range(r.choice([1, 1, 2, 3]))]
        if k == 3:
            return ["#" * r.choice([1, 2, 3, 4, 6, 7, 10]) + r.choice([" ", "  ", "\t", "", " \t "]) + r.choice([self.text(), "Title é", "a", ""])] + \
                   (["next line"] if self.p(0.2) else [])
        if k == 4:
            return [r.choice(["***", "---", "+++", "****", "--", "**", "++", "-----", "*-*", "--- ", "---x", "*** a", "+++\t", "-", "*", "+"])] + \
                   (["after"] if self.p(0.3) else [])
        if k == 5:
            return ["<" + r.choice(["p>", "", "div>*a*", "!-- x -->", "b"])] + [self.text() or "h" for _ in range(r.choice([0, 1, 2]))]
        if k in (6, 7) and depth > 0:
            inner = self.lines(r.choice([1, 2, 3]), depth - 1)
            pre = ">" + r.choice(["", " ", " ", "  ", "\t"])
            ls = [pre + x for x in inner]
            if self.p(0.15):
                i = r.randrange(len(ls))
                ls[i] = r.choice([">", "x", "> ", ">  y", " > z", ls[i][1:] or "w"])
            return ls
        if k == 8:
            pre = r.choice([" ", "  ", "    ", "\t", " \t"])
            ls = [pre + (self.text() or "c") for _ in range(r.choice([1, 2, 3]))]
            if self.p(0.2):
                ls[r.randrange(len(ls))] = r.choice([pre[:-1] + "x", "y", pre, pre + pre + "z"])
            return ls
        if k in (9, 10):
            pre = r.choice("*+-") + r.choice([" ", "  ", "\t", "", "   "])
            ls = []
            for _ in range(r.choice([1, 2, 3, 4])):
                ls.append(pre + self.text())
                while self.p(0.25):
                    ls.append(" " * len(pre) + self.text())
            if self.p(0.25):
                i = r.randrange(len(ls))
                ls[i] = r.choice(["x", "* a", "- b", "+ c", " d", pre, pre[0], "1. e", " " * len(pre), "\t f", pre[0] * 2, pre[0] * 3])
            return ls
        if k in (11, 12):
            w = r.choice([3, 3, 4, 5, 2])
            ls = []
            for i in range(r.choice([1, 2, 3, 4])):
                num = r.choice([str(i + 1), "10", "9", "0", "123"])
                ls.append((num + "." + r.choice([" ", " ", "\t"]) * 9)[:max(w, len(num) + 1)] + (self.text() or "i"))
                while self.p(0.25):
                    ls.append(" " * w + self.text())
            if self.p(0.25):
                i = r.randrange(len(ls))
                ls[i] = r.choice(["x", "* a", "1.", "1", "12", "1.b", " 1. c", "   d", "1)", "1. ", "2.  "])
            return ls
        if k == 13:
            return [r.choice(["..", "...", "....", ".", "...x", ".. ", "..\t."])] + (["after"] if self.p(0.2) else [])
        return [r.choice(["#", "##", "###x", "# ", "#\t", "12", "1.", ">", "> ", "<", "  ", "\t", "-", "- ", "*", "* ", "+", "--", "**", ".", "..", "x",
                          "!", "\\", "[", "`", "_", "\\# x", "\\- y", "é"])]

    def lines(self, n, depth=2):
        ls = []
        for i in range(n):
            if i:
                ls += [""] * self.r.choice([0, 1, 1, 1, 1, 2, 3])
            ls += [x for l in self.block(depth) for x in l.replace("\r", "").split("\n")]
        return ls

    def content(self, n=None):
        ls = self.lines(n or self.r.choice([1, 1, 2, 3, 4, 6]))
        nl = self.r.choice(["\n", "\n", "\n", "\r\n", "\r\n", "\r", "\n\r", None])
        s = ""
        for i, l in enumerate(ls):
            s += l
            if i < len(ls) - 1:
                s += nl or self.r.choice(["\n", "\r\n"])
        s += self.r.choice(["", nl or "\n", nl or "\n", (nl or "\n") * 2])
        return s


HEADER = b"A: 1\n-----\n"


def src(text, header=HEADER):
    return header + text.encode()


LINES = ["a", "> a", ">", "- a", "-", "  a", "  ", "1. a", "12", "# a", "##", "<a", "---", "...", "*", ""]


def small_contents(n):
    """all sequences of up to n lines of 16 shapes"""
    for k in range(1, n + 1):
        for p in itertools.product(LINES, repeat=k):
            if p[0] != "":
                yield p


def C07():
    chk = Check("C07", "model_checking")
    chk.model_check("MCContent", "MCContent%d.cfg" % (4 if QUICK else 5), minimum=1000)
    g = C(chk.rng)
    specs = []
    with Scratch() as d:
        # all combinations of lines, many per source
        todo = list(small_contents(3))
        if not QUICK:
            todo += chk.rng.sample(list(itertools.product(LINES, repeat=4)), 30000)
        for i, p in enumerate(todo):
            nl = ["\n", "\r\n"][i % 2]
            specs.append({"src": src(nl.join(p) + ["", nl, nl + nl + "z"][i % 3])})
        for _ in range(2500 if QUICK else 40000):
            specs.append({"src": src(g.content())})
        if QUICK:
            specs = chk.rng.sample(specs[:len(todo)], 2500) + specs[len(todo):]
        cov = execute(chk, specs, d, "plain")
        cov2 = execute(chk, [{"src": src(g.content())} for _ in range(1500 if QUICK else 20000)], d, "asan")
        endings(chk, d, g)
    return chk.finish(exhaustive=False, random_with_address_sanitizer=cov2, bound="all contents of up to 3 lines of 16 shapes (thorough; "
                      "quick: 2500 of them), random contents of up to 6 blocks", **cov)


def endings(chk, d, g):
    """the same content with LF and CR LF differs only in its line endings"""
    specs = []
    for _ in range(400 if QUICK else 5000):
        t = "\n".join(g.lines(g.r.choice([1, 2, 3, 5]))).replace("\r", "")
        specs.append({"src": src(t + "\n")})
        specs.append({"src": src((t + "\n").replace("\n", "\r\n"))})
    for i, s in enumerate(specs):
        s["id"] = i
    rn = SourceRunner(build("plain")["blogc"], d)
    cases = pmap(rn.run, specs)
    pairs = []
    for i in range(0, len(cases), 2):
        a, b = cases[i], cases[i + 1]
        pairs.append({"id": i, "a": a, "b": b})
    chk.conform("TraceEndings", pairs, lambda c: {"id": c["id"], "a": rn.run(specs[c["id"]]), "b": rn.run(specs[c["id"] + 1])},
                lambda c, e: "with LF and CR LF the result differs: %s" % describe(c["b"], {"ok": c["a"]["ok"], "shown": c["a"]["shown"]}))


def C08():
    chk = Check("C08", "model_checking")
    chk.model_check("MCInline", "MCInline%d.cfg" % (4 if QUICK else 5), minimum=1000)
    g = C(chk.rng)
    alphabet = ["*", "_", "`", "[", "]", "(", ")", "!", "-", " ", "\\", "a", "<"]
    with Scratch() as d:
        texts = ["".join(p) for k in range(1, 4) for p in itertools.product(alphabet, repeat=k)]
        more = ["".join(chk.rng.choice(alphabet + ["\n", "b"]) for _ in range(chk.rng.choice([4, 5, 6, 7, 9, 12]))) for _ in range(4000 if QUICK else 150000)]
        more += [g.inline(3).replace("\r", "") for _ in range(4000 if QUICK else 80000)] + [g.soup(chk.rng.randrange(3, 25)) for _ in range(3000 if QUICK else 50000)]
        if not QUICK:
            texts += ["".join(p) for p in itertools.product(alphabet, repeat=4)]
        texts += [re.sub("\n\n+", "\n", t.strip("\n")) for t in more]
        specs = []
        for i in range(0, len(texts), 12):
            part = texts[i:i + 12]
            # in paragraphs, after a letter, so that they do not look like other blocks
            specs.append({"src": src("\n\n".join("x" + t for t in part)), "names": ["CONTENT"]})
        for i in range(0, len(texts), 40):
            # and in titles and list items
            t = texts[i].replace("\n", " ")
            specs.append({"src": src("# " + t + "\n\n* " + t + "\n* z\n\n1. " + t + "\n")})
            specs.append({"src": src("* " + texts[i] + "\n* y")})
            specs.append({"src": src("y" + texts[i]), "names": ["CONTENT"]})
        cov = execute(chk, specs, d, "plain")
        cov2 = execute(chk, [{"src": src(g.inline(4))} for _ in range(800 if QUICK else 20000)], d, "asan")
    return chk.finish(exhaustive=False, texts=len(texts), random_with_address_sanitizer=cov2, **cov)


def C09():
    chk = Check("C09", "model_checking")
    chk.model_check("MCToctree", "MCToctree.cfg", minimum=1000)
    g = C(chk.rng)
    r = chk.rng
    specs = []
    with Scratch() as d:
        # every sequence of up to 4 levels, every depth
        seqs = [p for k in range(1, 5) for p in itertools.product((1, 2, 3, 5), repeat=k)]
        for p in seqs:
            for depth in (r.sample([None, "0", "1", "2", "3", "4", "-1"], 2) if QUICK else [None, "0", "1", "2", "3", "4", "-1"]):
                specs.append({"src": src("\n\n".join("#" * l + " T%d" % i for i, l in enumerate(p)) + "\n"), "depth": depth})
        for _ in range(2500 if QUICK else 30000):
            head = r.choice([b"A: 1\n", b"A: 1\n", b"TOCTREE_MAXDEPTH: %s\n" % r.choice([b"0", b"1", b"2", b"3", b"-1", b"", b"x", b"2x", b" 1", b"+2"]),
                             b"TOCTREE: mine\n", b"TOCTREE:\n", b"TOCTREE: mine\nTOCTREE_MAXDEPTH: x\n"])
            ls = []
            for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
                if g.p(0.75):
                    ls.append("#" * r.choice([1, 1, 2, 2, 3, 4, 6, 9]) + " " + r.choice([g.text(), "Same", "Same", "Été", "a-b C", "*x*", "[l](u)", "<&>", ""]))
                    ls += [""] * r.choice([0, 1, 1])
                else:
                    ls += g.block() + [""]
            nl = r.choice(["\n", "\r\n", "\n"])
            text = nl.join(l.replace("\n", " ").replace("\r", " ") for l in ls) + r.choice(["", nl])
            specs.append({"src": src(text, head + b"---\n"), "depth": r.choice([None, None, "0", "1", "2", "3", "-2", "", "x", "1x"]),
                          "names": NAMES + ["TOCTREE_MAXDEPTH"]})
        cov = execute(chk, specs, d, "asan")
    return chk.finish(exhaustive=False, **cov)
