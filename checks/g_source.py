"""C06 source files, C23 text inputs."""
import itertools
from vp import *
from g_content import SourceRunner, C, describe, execute, NAMES

KEYS = ["A", "TITLE", "AB_1", "Z9", "A_", "DATE", "TAGS", "FIRST_HEADER", "DESCRIPTION", "TOCTREE", "EXCERPT", "RAW_CONTENT",
        "PAGE", "CONTEN", "FILENAMES", "PAGE_NEXTS", "PAGE_FIRS", "BLOGC_VERSIO", "CONTENTS", "DATE_FORMATTE", "DATE_FORMATTED_1"]
RESERVED = ["FILENAME", "CONTENT", "DATE_FORMATTED", "DATE_FIRST_FORMATTED", "DATE_LAST_FORMATTED", "PAGE_FIRST", "PAGE_PREVIOUS", "PAGE_CURRENT",
            "PAGE_NEXT", "PAGE_LAST", "BLOGC_VERSION"]
NEARKEYS = [k for n in RESERVED for k in (n[:-1], n + "X", n + "_X", "X" + n, n + "1", n[:3] + "Q" + n[4:], n.replace("_", ""))]
BADKEYS = ["a", "Ab", "A-B", "A B", "1A", "_A", "É", "A ", "", "A.B", "A\tB"]
VALUES = ["", "v", "a: b", " x ", "\t y\t", "é ç", "a  b", "--", "---", "\"q\"", ":", "\\n", "2", "A", "  ", "<&>", "\v z \f", "x" * 127, "y" * 128, "z" * 129, "1", "[x](y)"]
FILES = ["a", "a.txt", "b.c.txt", "d/e.txt", "d.x/e", "d.x/e.md", "x.txt.", ".hidden", "d/.hidden.txt", "é.txt", "d/a b.c", "...", "d/-f.txt", "a..txt",
         "d\\e.txt", "x/y/z.w.v", "A.TXT", "a.", "d/é.ç"]


class S(C):
    def head(self):
        r = self.r
        nl = r.choice(["\n", "\n", "\r\n", "\r", "\n\n", "\n \t\n", "\n\r"])
        out = r.choice(["", "", "", "\n", "  ", " \n\t"])
        names = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            x = r.random()
            k = r.choice(KEYS) if x < 0.95 else r.choice(RESERVED) if x < 0.975 else r.choice(BADKEYS)
            if names and self.p(0.2):
                k = r.choice(names)
            names.append(k)
            out += r.choice(["", "", "", " ", "\t"]) + k + (":" if self.p(0.985) else r.choice(["", " :", "=", "::"])) + r.choice(["", " ", " ", "  ", "\t"]) + r.choice(VALUES) + nl
        return out, names

    def sep(self):
        r = self.r
        return r.choice(["", "", "", " "]) + "-" * r.choice([1, 2, 3, 3, 5, 10]) + (r.choice([" ", "x", "- ", "—"]) if self.p(0.04) else "") + \
            r.choice(["\n", "\n", "\n", "\r\n", "\r", "\n\n", "\r\n\r\n", ""])

    def source(self):
        h, names = self.head()
        if self.p(0.9):
            h += self.sep()
        elif self.p(0.4):
            return h[:self.r.randrange(len(h) + 1)], names
        else:
            return h, names
        x = self.r.random()
        if x < 0.15:
            h += self.r.choice(["", "x", "\n", " ", "#", "-", ".", "..", "\\", "é", "\r", ">", "1", "*"])
        else:
            h += self.content(self.r.choice([1, 1, 2, 3]))
        if self.p(0.07):
            i = self.r.randrange(len(h) + 1)
            h = h[:i] + self.r.choice(["", "\n", ":", "-", "A", " ", "\\", "é", "\r"]) + h[i + self.r.choice([0, 1]):]
        return h, names


def edits(text):
    for i in range(len(text) + 1):
        yield text[:i]
        if i < len(text):
            yield text[:i] + text[i + 1:]
        for c in ["\n", "\r", ":", "-", " ", "A", "a", "_", "1", "#", "\t", "."]:
            yield text[:i] + c + text[i:]
            yield text[:i] + c + text[i + 1:]


LINES = ["A: 1", "B:", "A:  2 ", "  C: x:y", "-", "---", "--x", "b: 1", "", " ", "A", "A 1", "D_2:\tz", "FILENAME: x", "# H", "..."]


def C06():
    chk = Check("C06", "model_checking")
    chk.model_check("MCSource", "MCSource%d.cfg" % (6 if QUICK else 7), minimum=100000)
    r = chk.model_check("MCSource", "MCSource5.cfg", minimum=10000)
    g = S(chk.rng)
    rnd = chk.rng
    specs = []
    with Scratch() as d:
        small = r.printed("CASE")
        if len(small) != 19608:
            raise CheckError("the model printed %d behaviours" % len(small))
        if QUICK:
            acc = [c for c in small if c["ok"]]
            small = rnd.sample(acc, min(len(acc), 900)) + rnd.sample(small, 1200)
        specs += [{"src": bytes(c["src"]), "names": NAMES + ["A", "AA", "A1"]} for c in small]
        seqs = [p for k in range(1, 4) for p in itertools.product(LINES, repeat=k)]
        for i, p in enumerate(rnd.sample(seqs, 900) if QUICK else seqs):
            nl = ["\n", "\n", "\r\n", "\r"][i % 4]
            specs.append({"src": (nl.join(p) + ["", nl][i // 4 % 2]).encode(), "names": NAMES + ["A", "B", "C", "D_2"]})
        ed = list(edits("A: b\nFIRST_HEADER: x\n---\n# foo\n\nbar\n")) + list(edits("TOCTREE_MAXDEPTH: 1\n\n--\n..\n\n# a\n")) + list(edits(" B_1:c\r\n-\r\nx\r\n"))
        for t in (rnd.sample(ed, 700) if QUICK else ed):
            specs.append({"src": t.encode(), "names": NAMES + ["A", "B_1", "TOCTREE_MAXDEPTH"]})
        for k in [k for k in NEARKEYS if k not in RESERVED] + RESERVED + KEYS + ["TOCTREE", "FIRST_HEADER", "DESCRIPTION", "EXCERPT", "RAW_CONTENT", "CONTENT_"] + \
                ["K" * n for n in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300)]:
            specs.append({"src": (k + ": v\nB: w\n---\n# h\n\ntext\n").encode(), "names": list(dict.fromkeys(NAMES + [k, "B"]))})
        for n in (30, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025):
            for t in ("A: %s\n---\n%s\n" % ("v" * n, "c" * n), "A: %s\n%s\n# x" % ("v" * n, "-" * n), "---\n# %s\n\n%s\n...\nx" % ("h" * n, "d " * n)):
                specs.append({"src": t.encode(), "names": NAMES + ["A"]})
        for _ in range(2500 if QUICK else 40000):
            t, names = g.source()
            specs.append({"src": t.encode(), "file": rnd.choice(FILES), "depth": rnd.choice([None, None, None, "0", "1", "2", "-1", "x"]),
                          "names": NAMES + list(dict.fromkeys(n for n in names if n[:1].isupper() and n.isascii() and n.replace("_", "").isalnum()))[:6],
                          "stdin": rnd.random() < 0.1})
        cov = execute(chk, specs, d, "asan")
    return chk.finish(exhaustive=False, bound="all sources of up to %d of 7 characters (TLC), replays of those of up to 5, sequences of up to 3 of 16 lines, "
                      "single character edits of 3 sources, random sources" % (6 if QUICK else 7), **cov)


# ---------------------------------------------------------------- C23

BOM = b"\xef\xbb\xbf"
KINDS = ("template", "source", "value", "entry", "define", "config", "item")
REQUIRED = b"".join(b"%s = v\n" % k for k in (b"AUTHOR_NAME", b"AUTHOR_EMAIL", b"SITE_TITLE", b"SITE_TAGLINE", b"BASE_DOMAIN"))
# what is needed around the text that is shown
AROUND = {"template": (b"", b""), "source": (b"A: b\n---\n", b""), "value": (b"A: b\nK: ", b"\nB: c\n"), "entry": (b"-\n", b""), "define": (b"", b""),
          "config": (b"[global]\n" + REQUIRED + b"K = ", b"\n[posts]\n"), "item": (b"[global]\n" + REQUIRED + b"[posts]\n[tags]\n", b"\n")}


class TextRunner:
    def __init__(self, progs, d):
        from sitelib import stub
        self.progs, self.d, self.stub = progs, d, stub()
        os.chmod(d, 0o755)
        for n, t in (("entry.tmpl", b"{% block listing_entry %}{{ RAW_CONTENT }}{% endblock %}"), ("x.txt", b"A: b\n---\nx\n")):
            with open(os.path.join(d, n), "wb") as f:
                f.write(t)

    def run(self, spec):
        """spec: id, kind, pre, body, post, slow (the file is a pipe that is written to in small pieces)"""
        k = spec["kind"]
        data = spec["pre"] + spec["body"] + spec["post"]
        w = tempfile.mkdtemp(dir=self.d)
        p = os.path.join(w, "blogcfile" if k in ("config", "item") else "f.txt")
        th = None
        if spec.get("slow"):
            import threading
            os.mkfifo(p)

            def feed():
                with open(p, "wb", buffering=0) as f:
                    i = 0
                    for n in spec["slow"] + [1 << 20]:
                        f.write(data[i:i + n])
                        i += n
                        time.sleep(0.004)
            th = threading.Thread(target=feed, daemon=True)
            th.start()
        elif k != "define":
            with open(p, "wb") as f:
                f.write(data)
        b = self.progs["blogc"]
        x = os.path.join(self.d, "x.txt")
        env = {}
        if k == "template":
            argv = [b, "-t", p, x]
        elif k == "source":
            argv = [b, "-p", "RAW_CONTENT", p]
        elif k == "value":
            argv = [b, "-p", "K", p]
        elif k == "entry":
            argv = [b, "-l", "-e", p, "-t", os.path.join(self.d, "entry.tmpl")]
        elif k == "define":
            argv = [b, "-p", "K"] + [b"-DK=" + spec["body"]] + [x]
        else:
            argv = [self.progs["blogc-make"], "index" if k == "config" else "tags"]
            os.makedirs(os.path.join(w, "templates"))
            with open(os.path.join(w, "templates", "main.tmpl"), "w") as f:
                f.write("x")
            log = os.path.join(w, "log")
            open(log, "w").close()
            env = {"BLOGC": self.stub, "STUB_LOG": log, "STUB_REAL": b, "STUB_BASE": w + "/"}
        r = run(argv, cwd=w, env=env)
        if r.timeout:
            raise CheckError("%r timed out" % argv[:4])
        if th:
            th.join(5)
        out = r.out
        if k in ("config", "item"):
            from sitelib import read_log
            want = b"K" if k == "config" else b"FILTER_TAG"
            out = b"".join(v for c in read_log(log) for n, v in c["vars"] if n == want)
        elif r.rc == 0 and k in ("source", "value", "define"):
            out = out[:-1] if out[-1:] == b"\n" else b"(no line ending)" + out
        shutil.rmtree(w, ignore_errors=True)
        return {"id": spec["id"], "kind": k, "pre": bl(spec["pre"]), "body": bl(spec["body"]), "post": bl(spec["post"]), "ok": r.rc == 0,
                "out": bl(out if r.rc == 0 or k not in ("template",) else out), "err": r.err != b"" and r.rc in (1, 3), "rc": r.rc}


def text_case(kind, body, pre=b"", post=b"", **kw):
    a, b = AROUND[kind]
    return dict(kind=kind, pre=pre + a, body=body, post=b + post if kind != "template" else post, **kw)


SAFE = [b"a", b"b", b"Z", b"0"]
WIDE = [b"\xc2\x80", b"\xc3\xa9", b"\xdf\xbf", b"\xe0\xa0\x80", b"\xe2\x82\xac", b"\xed\x9f\xbf", b"\xee\x80\x80", b"\xef\xbf\xbf", b"\xef\xbb\xbf",
        b"\xf0\x90\x80\x80", b"\xf0\x9f\x98\x80", b"\xf3\xbf\xbf\xbf", b"\xf4\x8f\xbf\xbf"]
WRONG = [b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe0\x9f\xbf", b"\xe2\x82", b"\xe2", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x8f\xbf\xbf",
         b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", b"\xc3\xc3\xa9"]


def lead_sequences():
    """Every sequence that is complete, or that a first wrong byte makes invalid, over all lead bytes; the bytes that follow
    are all of the byte values at the position that is varied."""
    rv = []
    for c in range(1, 256):
        rv.append(bytes([c]))
    for c in range(0xc0, 256):
        for x in range(1, 256):
            rv.append(bytes([c, x]))
    ok2 = {0xe0: (0xa0, 0xbf), 0xed: (0x80, 0x9f), 0xf0: (0x90, 0xbf), 0xf4: (0x80, 0x8f)}
    for c in range(0xe0, 0xf5):
        for y in ok2.get(c, (0x80, 0xbf)):
            for x in range(1, 256):
                rv.append(bytes([c, y, x]))
    for c in range(0xf0, 0xf5):
        for y in ok2.get(c, (0x80, 0xbf)):
            for z in (0x80, 0xbf):
                for x in range(1, 256):
                    rv.append(bytes([c, y, z, x]))
    return rv


def edge(b):
    return any(x in (0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff, 1, 0x41) for x in b[1:]) or len(b) == 1


def plain(b, kind):
    """A text whose bytes have no meaning where it is put."""
    return not any(c < 0x30 or c in b"\\{[\"=;" for c in b) if kind != "template" else b"{" not in b


def sized(n, unit, wrong, at):
    """A text of n bytes, around unit, with something invalid at a position."""
    t = b"x" + unit * (n // len(unit) + 1)
    t = t[:n - 1]
    while True:
        try:
            t.decode()
            break
        except UnicodeDecodeError:
            t = t[:-1]
    t += b"x" * (n - len(t))
    if wrong:
        i = min(at, n)
        while i < len(t) and t[i] & 0xc0 == 0x80:
            i -= 1
        t = t[:i] + wrong + t[i:]
    return t


def C23():
    chk = Check("C23", "model_checking")
    chk.model_check("MCUtf8", "MCUtf8_4.cfg", minimum=400000)
    if not QUICK:
        chk.model_check("MCUtf8", "MCUtf8_5.cfg", minimum=800000)
    r = chk.rng
    specs = []
    # sequences of up to four bytes
    seqs = lead_sequences()
    edges = [b for b in seqs if edge(b)]
    todo = r.sample(edges, min(len(edges), 6000)) + r.sample(seqs, 1500) if QUICK else seqs + edges
    for i, b in enumerate(todo):
        k = KINDS[i % 7 if i % 3 == 0 else 4 * (i % 2)]
        b = [b"", b"a", b"\xc3\xa9"][i % 3 if k != "template" else 0] + b + [b"", b"z"][i // 2 % 2]
        if k != "template":
            b = b"x" + b + b"x"
        if plain(b, k):
            specs.append(text_case(k, b))
    # an invalid sequence, or a valid one, in every place of every kind
    for k in KINDS:
        pre, post = AROUND[k]
        for w in WIDE + WRONG:
            for body in (b"x" + w + b"x", b"x" + w, w + b"x"):
                specs.append(text_case(k, body))
            if k in ("source", "value", "entry"):
                specs.append(dict(kind=k, pre=b"C: " + w + b"\n" + pre, body=b"xy", post=post))
                specs.append(dict(kind=k, pre=pre, body=b"xy", post=b"\nD: " + w + b"\n" if k == "value" else b""))
            if k in ("config", "item"):
                specs.append(dict(kind=k, pre=b"# " + w + b"\n" + pre, body=b"xy", post=post))
                specs.append(dict(kind=k, pre=pre, body=b"xy", post=post + b"[z]\n; " + w))
                specs.append(dict(kind=k, pre=pre, body=b"xy", post=post + b"# " + w + b"\n"))
    # byte order marks
    for k in KINDS:
        if k == "define":
            continue
        for body in (b"x", b"xyz", b"x\xc3\xa9", b"x" * 1021, b"x" * 1020 + b"\xc3\xa9", b"x\xff"):
            specs.append(text_case(k, body, pre=BOM))
        for part in (BOM[:1], BOM[:2], b"\xfe\xff") + ((b"\xef\xbb\xbe", b"\xef\xbf\xbb") if k == "template" else ()):
            specs.append(text_case(k, part + b"x" if k == "template" else b"x", pre=b"" if k == "template" else part))
    for t in (b"", BOM, BOM + BOM, BOM + BOM + b"x", b"a" + BOM, BOM + b"\x80", BOM[:2] + BOM, BOM + BOM[:1], b"\n" + BOM):
        specs.append(text_case("template", t))
    # marks (which are text there) and other characters around every boundary of a buffer
    for k in KINDS:
        for tok in (BOM, BOM + BOM, b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\xff", b"\r\n" if k in ("source", "template") else b"y"):
            for off in [n + d for n in (128, 512, 1024, 2048, 4096) for d in (range(-4, 2) if n == 1024 or not QUICK else (-1, 0))]:
                for b in (b"", BOM) if k != "define" and tok == BOM else (b"",):
                    n = off - len(b) - len(AROUND[k][0])
                    if n > 0:
                        specs.append(text_case(k, b"x" * n + tok + b"x", pre=b))
    for k in ("template", "source", "entry"):
        for slow in ([1], [5], [16], [1024]):
            n = slow[0] - len(AROUND[k][0])
            specs.append(text_case(k, b"x" * (n if n > 0 else slow[0]) + BOM * 3 + b"x", slow=slow))
    # sizes around the boundaries of buffers
    sizes = sorted({n + d for n in (128, 256, 384, 512, 640, 1024, 2048, 3072, 4096, 8192) for d in (-3, -2, -1, 0, 1, 2, 3)} |
                   {n + d for n in (1024, 2048, 3072) for d in range(-12, 13)})
    jobs = [(k, n, u, w, b) for k in KINDS for n in sizes for u in (b"a", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80")
            for w in (b"", b"\xff", b"\xe2\x82") for b in (b"", BOM) if k != "define" or not b]
    for k, n, u, w, b in (r.sample(jobs, 2200) if QUICK else jobs):
        pre, post = AROUND[k]
        extra = len(b) + len(pre) + len(post)
        for total in ([n] if r.random() < 0.7 else [n + extra]):    # the size of the file, or of the text
            m = total - extra
            if m < 4:
                continue
            at = r.choice([m, m - 1, 1024 - len(pre) - len(b), 1023 - len(pre) - len(b), 1022 - len(pre) - len(b), 2048 - len(pre) - len(b), r.randrange(m)])
            specs.append(text_case(k, sized(m, u, w, max(1, at)), pre=b))
    for k in KINDS:
        for n in ((20000, 40000) if QUICK else (20000, 65535, 65536, 65537, 100000)):
            if k == "item" and n > 40000:      # (a command has at most 128 KB)
                continue
            specs.append(text_case(k, sized(n, r.choice([b"a", b"\xe2\x82\xac"]), r.choice([b"", b"", b"\xc3"]), n)))
    specs.append(text_case("template", sized(300000, b"\xf0\x9f\x98\x80", b"", 0)))
    # pipes that deliver little at a time
    for k in ("template", "source", "value", "entry"):
        for slow in ([1], [1, 1, 1], [2, 1], [3], [4], [1023], [1024], [1, 1023], [3, 1024]):
            specs.append(text_case(k, sized(1500, b"\xe2\x82\xac", r.choice([b"", b"", b"\xff"]), 1400), pre=BOM if r.random() < 0.7 else b"", slow=slow))
    # code points
    step = 61
    for j, lo in enumerate(range(0x30, 0x110000, 700)):
        if QUICK and j % step and lo not in range(0xd700, 0xe800):
            continue
        body = b"x" + "".join(chr(c) for c in range(lo, lo + 700) if c < 0x110000 and not 0xd800 <= c < 0xe000).encode() + b"x"
        if lo == 0x30:
            body = bytes(c for c in body if c not in b"\\{[\"=;")
        specs.append(text_case(KINDS[j % 7], body))
    for i, s in enumerate(specs):
        s["id"] = i
    with Scratch() as d:
        rn = TextRunner(build("plain"), d)
        t = time.time()
        cases = pmap(rn.run, specs)
        log("  %d texts read, %.1fs" % (len(cases), time.time() - t))
        for c in cases[:: max(1, len(cases) // 5)]:
            chk.sample({"kind": c["kind"], "text": show(c["body"])[:60], "size": len(c["pre"] + c["body"] + c["post"]), "accepted": c["ok"]})
        chk.conform("TraceText", cases, lambda c: rn.run(specs[c["id"]]),
                    lambda c, e: "%s: %r...%r (%d bytes after %r): status %d, expected %s; shown %r..., expected %r..." % (
                        c["kind"], bytes(c["body"])[:60], bytes(c["body"])[-30:], len(c["body"]), bytes(c["pre"])[:40], c["rc"],
                        "accepted" if e["ok"] else "rejected", bytes(c["out"])[:60], bytes(e["out"])[:60]))
    chk.assumptions.append("texts without NUL bytes")
    return chk.finish(exhaustive=False, texts=len(cases), accepted=sum(c["ok"] for c in cases), rejected=sum(not c["ok"] for c in cases),
                      bytes_read=sum(len(c["pre"] + c["body"] + c["post"]) for c in cases))
