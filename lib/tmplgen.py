"""Random and enumerated templates, contexts and command lines for the template properties."""
import itertools
from vp import *

NAMES = ["A", "B", "TITLE", "DATE", "TAGS", "LST", "EMPTY", "UND", "X1", "A_1", "FILENAME", "DATE_FORMAT",
         "LST__X", "LST__Y_Z", "TAGS__A", "FOREACH_ITEM", "FOREACH_VALUE", "NO_SIZE_5", "A_FORMATTED"]
REFS = NAMES + ["A_2", "A_0", "A_200", "TITLE_3", "TITLE_12", "DATE_FORMATTED", "DATE_FORMATTED_4", "DATE_4",
                "TITLE_FORMATTED", "TITLE_FORMATTED_2", "FOREACH_ITEM_1", "FOREACH_ITEM_2", "FOREACH_VALUE_2",
                "FOREACH_ITEM_FORMATTED", "FOREACH_VALUE_FORMATTED_3", "DATE_FIRST", "DATE_LAST",
                "DATE_FIRST_FORMATTED", "FILENAME_FIRST", "FILENAME_LAST", "UND_3", "UND_FORMATTED", "A_1_1",
                "A__1", "A_", "B_01", "TITLE_007", "NO_SIZE_5", "NO_SIZE_3", "CURRENT_PAGE", "LAST_PAGE",
                "NEXT_PAGE", "PREVIOUS_PAGE", "FIRST_PAGE", "BLOGC_VERSION", "DATE_UPDATED_FORMATTED", "LST_4",
                "TITLE_99999999999999999999", "X1_1"]
VALUES = ["", "a", "b", "ab", "abc", "foo", "bar", "foo bar", "x y", "x  y", " x", "Y-z q", "x", "1", "10", "9",
          "{{ A }}", "{% else %}", "&<>\"'", "ação", "\u65e5\u672c", "2015-01-02 03:04:05", "2015-01-02 03:04",
          "2015-01-02", "2016-02-30", "2015-13-02", "bola", "1969-12-31 23:59:59", "1900-01-01", "9999-12-31 23:59:60",
          "v" * 127, "w" * 128, "z" * 300, "a b c d e f g", "%Y", "%d/%m/%Y", "%H:%M", "%F %T %%", "[%a %b %j]"]
LISTS = ["x y", "x", "a", "x y-z", " x  y ", "a x a", "Y-z", "é a", "x" + " y" * 20, ""]
DATES = ["2015-01-02 03:04:05", "2015-01-02", "2016-03-01 00:00", "1969-12-31 23:59:59", "1900-01-01", "9999-12-31 23",
         "2015-1-02", "2015-01-02 ", "2016-02-30", "2015-12-31 23:59:60", "20150102", "2016-02-29 24:00", "x"]
FORMATS = ["%Y", "%d/%m/%Y", "%H:%M:%S", "%F %T %%", "[%a %b %j %y]", "%A, %B", "no", "", "%Y" * 300, "%M" * 40]
TEXTS = ["", " ", "\n", "t", "text", " x ", "\n\n", "\t y\n", "{", "}", "{ %", "}}", "%}", "% }", "{x", "{ {", "a{", "-",
         "{-", " {", "é", "\"", "\\", "\r\n", "\v\f ", "$1", "lorem ipsum dolor", "k" * 127, "m " * 70, "n" * 1030,
         "[#]", "{!", "{\n", "\n{", "&amp;"]
BLOCKS = ["entry", "listing", "listing_once", "listing_empty", "listing_entry"]
OPS = ["<", ">", "<=", ">=", "==", "!="]
STRS = ['""', '"a"', '"b"', '"foo"', '"foo bar"', '"ab"', '"a\\"b"', '"{%"', '"%}"', '"10"', '"A"', '" "', '"\n"']


class G:
    def __init__(self, rng):
        self.r = rng

    def p(self, x):
        return self.r.random() < x

    def sp(self, must=True):
        return self.r.choice([" ", " ", " ", " ", "  ", "\n", "\t", " \n "]) if must or self.p(0.5) else ""

    def stmt(self, body, plain=0.5):
        l = "{%" + ("-" if self.p(1 - plain) else "")
        r = ("-" if self.p(1 - plain) else "") + "%}"
        return l + self.sp() + body + self.sp() + r

    def text(self):
        t = self.r.choice(TEXTS)
        if self.p(0.3):
            t += self.r.choice(TEXTS)
        return t

    def name(self):
        return self.r.choice(REFS)

    def var(self):
        a, b = self.sp(False), self.sp(False)
        return "{{" + a + self.name() + b + "}}"

    def cond(self):
        k = self.r.random()
        if k < 0.3:
            return "ifdef" + self.sp() + self.name()
        if k < 0.5:
            return "ifndef" + self.sp() + self.name()
        arg = self.r.choice(STRS) if self.p(0.5) else self.name()
        return "if" + self.sp() + self.name() + self.sp() + self.r.choice(OPS) + self.sp() + arg

    def seq(self, depth, block, loop, n=None):
        """a well nested piece of template"""
        out = []
        for _ in range(n if n is not None else self.r.choice([1, 1, 2, 2, 3])):
            k = self.r.random()
            if depth <= 0 or k < 0.22:
                out.append(self.text())
            elif k < 0.42:
                out.append(self.var())
            elif k < 0.66:
                out.append(self.stmt(self.cond()) + self.seq(depth - 1, block, loop))
                if self.p(0.5):
                    out.append(self.stmt("else") + self.seq(depth - 1, block, loop))
                out.append(self.stmt("endif"))
            elif k < 0.78 and not loop:
                out.append(self.stmt("foreach " + self.r.choice(["LST", "TAGS", "LST", "TAGS", "A", "UND", "EMPTY",
                                                               "FOREACH_ITEM", "LST_3"])))
                out.append(self.seq(depth - 1, block, True))
                out.append(self.stmt("endforeach"))
            elif not block:
                out.append(self.stmt("block " + self.r.choice(BLOCKS)))
                out.append(self.seq(depth - 1, True, loop))
                out.append(self.stmt("endblock"))
            else:
                out.append(self.var())
        return "".join(out)

    def template(self):
        return self.seq(self.r.choice([1, 2, 3, 3, 4]), False, False, self.r.choice([1, 2, 3, 4, 6])).encode()

    def broken(self, t):
        """a template with a few characters or statements changed"""
        t = bytearray(t)
        for _ in range(self.r.choice([1, 1, 1, 2])):
            k = self.r.random()
            i = self.r.randrange(len(t) + 1)
            if k < 0.25:
                del t[i:i + 1]
            elif k < 0.5:
                t[i:i] = self.r.choice([b"{", b"}", b"%", b"-", b" ", b"\"", b"A", b"a", b"_", b"=", b"\n", b"0", b"\\",
                                        b"{%", b"%}", b"{{", b"}}", b"{%-", b"-%}", b"\xc3\xa9", b"{% ", b"--"])
            elif k < 0.65:
                del t[i:]
            elif k < 0.75:
                del t[:i]
            elif k < 0.9:
                st = self.r.choice(["{% else %}", "{% endif %}", "{% endblock %}", "{% endforeach %}", "{% foreach LST %}",
                                    "{% block entry %}", "{% block listing %}", "{% ifdef A %}", "{% if A == B %}",
                                    "{% if A = B %}", "{% if A === B %}", "{% if A <> \"x\" %}", "{% ifdef a %}", "{% block x %}",
                                    "{% block listing_onc %}", "{% endblocks %}", "{% iff A %}", "{% if A == B%}",
                                    "{% if A == B-%}", "{% if A == \"b\"%}", "{% if A == B\"%}", "{%if A == B %}",
                                    "{% if A  ==  \"x\\\" %}", "{% if A == %}", "{% ifdef A%}", "{% ifdef A-%}", "{% else%}",
                                    "{%else %}", "{%- else -%}", "{%-else -%}", "{% -else %}", "{% else --%}", "{%-- else %}",
                                    "{{ a }}", "{{ A B }}", "{{ A}}", "{{A }}", "{{ A }", "{{- A }}", "{{}}", "{{ 1 }}",
                                    "{{ _A }}", "{% ifdef A B %}", "{% foreach LST x %}", "{% block listing x %}",
                                    "{% if A == \"x\"y %}", "{% If A %}", "{% %}", "{%%}", "{%-%}", "{% if %}", "{% block %}"])
                t[i:i] = st.encode()
            else:
                j = self.r.randrange(len(t) + 1)
                i, j = min(i, j), max(i, j)
                t[i:j] = t[i:j][::-1] if self.p(0.2) else t[i:j] * 2
        return bytes(t)

    # contexts
    def value(self):
        return self.r.choice(VALUES)

    def env(self, dated, names):
        e = []
        for n in names:
            if self.p(0.6):
                if n in ("TAGS", "LST"):
                    e.append((n, self.r.choice(LISTS)))
                elif n == "DATE_FORMAT":
                    e.append((n, self.r.choice(FORMATS)))
                else:
                    e.append((n, self.value()))
        if dated:
            e.append(("DATE", self.r.choice(DATES)))
        if self.p(0.1) and e:
            e.append((e[0][0], self.value()))       # defined twice
        self.r.shuffle(e)
        return e

    LOCAL = ["A", "B", "TITLE", "TAGS", "LST", "EMPTY", "X1", "LST__X", "TAGS__A", "NO_SIZE_5", "DATE_FORMAT",
             "DATE_UPDATED"]
    GLOBAL = LOCAL + ["A_1", "LST__Y_Z", "FOREACH_ITEM", "A_FORMATTED", "DATE_4"]

    def context(self, filters=0.3):
        listing = self.p(0.6)
        n = self.r.choice([0, 1, 1, 2, 3, 4]) if listing else 1
        dated = self.p(0.5)
        g = self.env(False, self.r.sample(self.GLOBAL, self.r.randrange(len(self.GLOBAL))))
        if self.p(filters):
            if self.p(0.4):
                g.append(("FILTER_TAG", self.r.choice(["x", "a", "y", "q", ""])))
            if self.p(0.5):
                g.append(("FILTER_REVERSE", self.r.choice(["1", "yes", "no", "true", "on", "y", "0"])))
            if self.p(0.4):
                g.append(("FILTER_PAGE", self.r.choice(["1", "2", "3", "0", "-1", "x"])))
                if self.p(0.7):
                    g.append(("FILTER_PER_PAGE", self.r.choice(["1", "2", "3", "0", "-1", "10"])))
            if self.p(0.3):
                g.append(("FILTER_SORT", "1"))
        srcs = [self.env(dated if self.p(0.97) else not dated, self.LOCAL) for _ in range(n)]
        ents = []
        if listing and self.p(0.6):
            for _ in range(self.r.choice([1, 1, 2, 3])):
                ents.append(self.env(False, self.LOCAL) if self.p(0.75) else None)
        return {"listing": listing, "global": g, "sources": srcs, "entries": ents}


def dedupe(env):
    d = {}
    for k, v in env:
        d.pop(k, None)
        d[k] = v
    return list(d.items())


def strip(v):
    return v.strip(" \t\n\r\v\f")


class Runner:
    """Executes blogc for a template and a context, and records the execution."""

    def __init__(self, blogc, scratch):
        self.blogc, self.scratch = blogc, scratch
        self.cache = {}

    def source(self, env, name):
        """a source file with the variables env and no content"""
        text = "".join("%s: %s\n" % (k, v) for k, v in env)
        if not env:
            text = "NOTHING: 1\n"
            env = [("NOTHING", "1")]
        text += "-----\n"
        key = (text, name)
        p = self.cache.get(key)
        if p is None:
            d = os.path.join(self.scratch, "s%d" % len(self.cache))
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, name + ".txt")
            with open(p, "wb") as f:
                f.write(text.encode())
            self.cache[key] = p
        return p

    def run(self, spec):
        """spec: tmpl, ctx, mode ('stdout', 'file', 'stdin-list'...), before; returns the recorded case"""
        ctx = spec["ctx"]
        d = tempfile.mkdtemp(dir=self.scratch)
        argv = [self.blogc]
        tp = os.path.join(d, "t.tmpl")
        with open(tp, "wb") as f:
            f.write(spec["tmpl"])
        for k, v in ctx["global"]:
            argv += ["-D", k.encode() + b"=" + v.encode()]
        argv += ["-t", tp]
        if ctx["listing"]:
            argv.append("-l")
        for i, e in enumerate(ctx["entries"]):
            argv += ["-e", "" if e is None else self.source(e, "e%d" % i)]
        out = os.path.join(d, "o", "out.html")
        before = b""
        if spec["mode"] == "file":
            argv += ["-o", out]
            if spec.get("before") is not None:
                os.makedirs(os.path.dirname(out))
                before = spec["before"]
                with open(out, "wb") as f:
                    f.write(before)
        for i, s in enumerate(ctx["sources"]):
            argv.append(self.source(s, "f%d" % i))
        r = run(argv)
        extra = False
        if spec["mode"] == "file":
            extra = r.rc == 0 and r.out != b""
            try:
                with open(out, "rb") as f:
                    got = f.read()
            except OSError:
                got = b""
        else:
            got = r.out
            if r.rc != 0 and got.startswith(b"usage:"):
                got = b""
        shutil.rmtree(d, ignore_errors=True)

        def loc(e, name):
            e = e or [("NOTHING", "1")]
            return [[bl(k), bl(strip(v))] for k, v in e + [("FILENAME", name)]]
        glob = [["BLOGC_VERSION", "0.0.0"]] + [list(x) for x in ctx["global"]]
        return {"id": spec["id"], "tmpl": bl(spec["tmpl"]), "listing": ctx["listing"],
                "global": [[bl(k), bl(v)] for k, v in glob],
                "sources": [loc(e, "f%d" % i) for i, e in enumerate(ctx["sources"])],
                "entries": [{"ok": e is not None, "env": loc(e, "e%d" % i) if e is not None else []}
                            for i, e in enumerate(ctx["entries"])],
                "before": bl(before), "ok": r.rc == 0, "out": bl(got), "err": r.err != b"" or r.timeout,
                "extra": extra or r.rc < 0 or r.rc == 99 or r.timeout, "rc": r.rc}


def describe(c, e):
    env = lambda x: {show(k): show(v) for k, v in x}
    return ("template %r\n%s, global %r\nsources %r\nentries %r\nobserved: status %d, %r\nexpected: %s, %r" % (
        show(c["tmpl"]), "listing" if c["listing"] else "page", env(c["global"]), [env(s) for s in c["sources"]],
        [env(s["env"]) if s["ok"] else None for s in c["entries"]], c["rc"], show(c["out"]),
        "accepted" if e["ok"] else "rejected", show(e["out"])))


def from_mc(case):
    """a behaviour printed by MCTemplate, as a specification of a run"""
    c = case["ctx"]
    env = lambda x: [(show(k), show(v)) for k, v in x if show(k) != "FILENAME"]
    # (TLC prints an empty sequence as an empty list, and a record as an object)
    return {"tmpl": unbl(case["tmpl"]),
            "ctx": {"listing": c["listing"], "global": env(c["global"]), "sources": [env(s) for s in c["sources"]],
                    "entries": [env(e["env"]) if e["ok"] else None for e in c["entries"]]}}
