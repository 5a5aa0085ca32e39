"""C25 whole sites, built by both programs."""
import threading
from vp import *
from sitelib import Site, snapshot, write, opt, PAST, NOBODY
from g_config import GLOBAL

RULES = ["index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "copy"]
# (outside blocks only variables that no source defines are used: see the known finding skipped-block-scope)
HEADS = ["<title>{{ SITE_TITLE }} - {{ SITE_TAGLINE }}</title>\n", "{{ AUTHOR_NAME }} &lt;{{ AUTHOR_EMAIL }}&gt; {{ BASE_DOMAIN }}{{ BASE_URL }}\n",
         "{{ MAKE_RULE }}:{{ MAKE_TYPE }}:{{ MAKE_SLUG }}:{{ MAKE_ENV }}\n", "{% if MAKE_RULE == \"index\" %}home{% else %}{{ MAKE_RULE_3 }}{% endif %}\n",
         "{% ifdef FILTER_TAG %}tag {{ FILTER_TAG }}{% else %}no tag{% endif %}\n", "{% ifdef MAKE_TAGS %}<ul>{% foreach MAKE_TAGS %}<li>{{ FOREACH_ITEM }}</li>{% endforeach %}</ul>{% endif %}\n",
         "{% ifdef MAKE_ENV_DEV %}draft{% endif %}{% ifdef IS_POST %}post{% endif %}\n", "{{ BLOGC_VERSION }} {{ DATE_FORMAT }}\n",
         "{% foreach MAKE_TAGS %}{% if FOREACH_ITEM == FILTER_TAG %}[{{ FOREACH_ITEM }}]{% else %}{{ FOREACH_ITEM }}{% endif %} {% endforeach %}\n",
         "{% if MAKE_TYPE == \"post\" %}{% ifdef IS_POST %}single{% else %}list{% endif %}{% else %}other{% endif %}\n", "plain text { } %\n", ""]
PAGERS = ["{% block listing_once %}{{ CURRENT_PAGE }}/{{ LAST_PAGE }} {{ PREVIOUS_PAGE }} {{ NEXT_PAGE }}{% endblock %}\n",
          "{% ifdef NEXT_PAGE %}<a href=\"/page/{{ NEXT_PAGE }}\">more</a>{% endif %}{% ifdef PREVIOUS_PAGE %}<a href=\"{{ PREVIOUS_PAGE }}\">less</a>{% endif %}\n",
          "{% block listing_once %}{{ FILENAME_FIRST }}..{{ FILENAME_LAST }} {{ DATE_FIRST }} {{ DATE_LAST_FORMATTED }}{% endblock %}\n", "{{ CURRENT_PAGE }} {{ FIRST_PAGE }}\n", "", ""]
ENTRIES = ["{% block entry %}<h1>{{ TITLE }}</h1>\n{{ CONTENT }}{% endblock %}\n", "{%- block entry -%}\n{{ FILENAME }} {{ DATE_FORMATTED }} {{ TAGS }}\n{{ CONTENT }}\n{%- endblock -%}\n",
           "{% block entry %}{{ MOOD }}{% ifdef TOCTREE %}<nav>{{ TOCTREE }}</nav>{% endif %}{{ EXCERPT }}|{{ CONTENT }}{% endblock %}",
           "{% block entry %}{% foreach TAGS %}#{{ FOREACH_ITEM }} {% endforeach %}{{ RAW_CONTENT }}{{ DESCRIPTION }} {{ FIRST_HEADER }}{% endblock %}",
           "{% block entry %}{% if TITLE < \"t2\" %}{{ TITLE_4 }}{% else %}{{ DATE }}{% endif %}{{ CONTENT }}{% endblock %}"]
LISTS = ["{% block listing %}<li>{{ FILENAME }}: {{ TITLE }}</li>\n{% endblock %}", "{% block listing %}{{ TITLE }} {{ DATE_FORMATTED }} {{ EXCERPT }}\n{% endblock %}",
         "{%- block listing -%}\n<p>{{ MOOD }}{{ TAGS }} {{ CONTENT }}</p>\n{%- endblock -%}\n", "{% block listing %}{% ifdef DATE %}{{ DATE }}{% else %}never{% endif %}{{ DESCRIPTION }};{% endblock %}\n",
         "{% block listing %}{% foreach TAGS %}{% if FOREACH_ITEM == FILTER_TAG %}*{% endif %}{{ FOREACH_ITEM }} {% endforeach %}{{ TITLE }}\n{% endblock %}", ""]
EMPTY = ["{% block listing_empty %}nothing here{% endblock %}\n", "{% block listing_empty %}{% ifdef FILTER_TAG %}nothing about {{ FILTER_TAG }}{% endif %}{% endblock %}", ""]
LENTRY = ["{% block listing_entry %}{{ TITLE }}: {{ CONTENT }}{{ MOOD }}{% endblock %}\n", "{% block listing_entry %}<{{ FILENAME }}>{% endblock %}", ""]
FEEDS = ["<feed>{{ DATE_FIRST_FORMATTED }}{% block listing %}<entry>{{ TITLE }} {{ DATE_FORMATTED }}{{ CONTENT }}</entry>{% endblock %}</feed>\n", "{{ MAKE_TYPE }}{% block listing %}{{ FILENAME }},{% endblock %}{{ FILTER_TAG }}"]
BADTMPL = ["{% block entry %}x", "{{ A", "{% endblock %}", "{% if A = 1 %}{% endif %}", "{% foo %}", "\xff", "{% block listing %}{% block entry %}{% endblock %}{% endblock %}"]
BODIES = ["# A header\n\nSome *text* with **strong** and `code`.\n", "- one\n- two [link](/a?b)\n\n1. x\n2. y\n", "> quoted\n> more\n\nafter\n", "    verbatim <b>\n\n---\n\nend\\\\\n",
          "first <tag> &amp;\n\n..\n\nsecond part\n", "## two\n\n### three\n\n## two\n\npara\ngraph  \nbreak\n", "![img](x.png) -- dash --- dash\n", "<div>\n raw\n</div>\n\nx\n", "", "just one line", "a\n\n...\n\nb\n# c\n",
          "\xc3\xa9\xe2\x82\xac text\r\n\r\n# crlf\r\n"]
BADSRC = ["TITLE: x\n", "title: x\n---\nb\n", "\xff\n---\n", "", "TITLE x\n---\n", "CONTENT: x\n---\n"]
TAGS = ["x", "y", "x y", "y x", "z", "", "xx  y", None, None]
SETS = {"html_ext": [".html", "/index.html", ".h"], "blog_prefix": ["blog", ""], "index_prefix": ["", "home"], "atom_prefix": ["feed", "atom"], "atom_ext": [".xml", "/index.xml"], "post_prefix": ["p", "post"],
        "tag_prefix": ["t", "tag"], "pagination_prefix": ["n", "page"], "posts_sort": ["1", "true", "0"], "html_order": ["ASC", "DESC", "asc"], "atom_order": ["ASC", "DESC"], "atom_posts_per_page": ["1", "2", "0", "-1"],
        "date_format": ["%Y-%m-%d", "%d %b %Y %H:%M:%S", "%j"], "content_dir": ["src", "content"], "template_dir": ["tmpl", "templates"], "main_template": ["main.tmpl", "m"], "source_ext": [".txt", ".md"]}


def glue(*parts):
    return "/".join(p for p in parts if p)


class Gen:
    """A site and what an author does to it."""

    def __init__(self, r, small=False):
        self.r = r
        self.st = {k: r.choice(v) for k, v in SETS.items() if r.random() < 0.25}
        self.st["posts_per_page"] = r.choice(["1", "2", "3", "10"])
        self.entry = r.random() < 0.5
        if self.entry:
            self.st["listing_entry"] = r.choice(["head", "intro"])
        self.feed = r.random() < 0.4
        if self.feed:
            self.st["atom_template"] = "feed.tmpl"
        self.vars = {k: v for k, v in [("BASE_URL", r.choice(["", "/x"])), ("MOOD", "global mood"), ("DESCRIPTION", "none"), ("TOCTREE_MAXDEPTH", r.choice(["0", "1", "2", "-1"]))] if r.random() < 0.4}
        self.posts = ["p%d" % i for i in range(r.randrange(0, 5))]
        r.shuffle(self.posts)
        self.tags = r.choice([None, ["x"], ["x", "y"], ["y", "x", "z"]])
        self.pages = r.choice([[], ["index"], ["about", "a/b"], ["about"]])
        self.home = "index" in self.pages           # (otherwise the index page of the site is the listing)
        if self.home:
            self.st["index_prefix"] = "home"
        self.copy = r.choice([None, ["d"], ["f.css", "d/e"], ["f.css"]])
        self.n = len(self.posts)

    # the files
    def cfg(self):
        t = GLOBAL + "".join("%s = %s\n" % kv for kv in sorted(self.vars.items())) + "[settings]\n" + "".join("%s = %s\n" % kv for kv in sorted(self.st.items()))
        for k in ("posts", "tags", "pages", "copy"):
            v = getattr(self, k)
            if v is not None:
                t += "[%s]\n" % k + "".join(x + "\n" for x in v)
        return t.encode()

    def post(self, slug):
        return glue(self.st.get("content_dir", "content"), self.st.get("blog_prefix", ""), self.st.get("post_prefix", "post"), slug) + self.st.get("source_ext", ".txt")

    def page(self, slug):
        return glue(self.st.get("content_dir", "content"), slug) + self.st.get("source_ext", ".txt")

    def head(self):
        return glue(self.st.get("content_dir", "content"), self.st.get("blog_prefix", ""), self.st["listing_entry"]) + self.st.get("source_ext", ".txt")

    def main(self):
        return glue(self.st.get("template_dir", "templates"), self.st.get("main_template", "main.tmpl"))

    def feedfile(self):
        return glue(self.st.get("template_dir", "templates"), "feed.tmpl")

    def template(self):
        r = self.r
        parts = r.sample(HEADS, r.randrange(0, 4)) + [r.choice(PAGERS), r.choice(ENTRIES), r.choice(LENTRY), r.choice(LISTS), r.choice(EMPTY)]
        if r.random() < 0.3:
            r.shuffle(parts)
        return "".join(parts).encode("latin-1")

    def source(self, dated=True):
        r = self.r
        v = [("TITLE", "t%d" % r.randrange(5))]
        if dated or r.random() < 0.4:
            v.append(("DATE", "20%02d-%02d-%02d%s" % (r.randrange(10, 14), r.randrange(1, 13), r.randrange(1, 29), r.choice([" %02d:%02d" % (r.randrange(24), r.randrange(60)), ""]))))
        t = r.choice(TAGS)
        if t is not None:
            v.append(("TAGS", t))
        for k, x in [("MOOD", "local mood"), ("DESCRIPTION", "own"), ("TOCTREE_MAXDEPTH", "1")]:
            if r.random() < 0.2:
                v.append((k, x))
        r.shuffle(v)
        return ("".join("%s: %s\n" % kv for kv in v) + "-----\n" + "".join(r.choice(BODIES) + r.choice(["\n", "\n\n"]) for _ in range(r.choice([1, 1, 2])))).encode("latin-1")

    def inputs(self):
        f = {self.main(): "template"}
        if self.feed:
            f[self.feedfile()] = "feed"
        if self.entry:
            f[self.head()] = "source"
        f.update({self.post(s): "post" for s in self.posts})
        f.update({self.page(s): "source" for s in self.pages})
        if self.copy:
            f.update({"f.css": "raw", "d/a": "raw", "d/e/b": "raw"})
        return f

    def content(self, kind):
        return {"template": self.template, "feed": lambda: self.r.choice(FEEDS).encode(), "source": lambda: self.source(False), "post": self.source,
                "raw": lambda: self.r.choice([b"", b"raw\n", b"\0\xff binary\n", b"p { }\r\n"])}[kind]()

    def history(self, n):
        r = self.r
        live = {f: self.content(k) for f, k in self.inputs().items()}
        spec = {"cfg": self.cfg(), "files": dict(live), "outdir": r.choice([None, None, "_b", "@/out/x"]), "dev": r.random() < 0.2}
        steps = [("build", [] if r.random() < 0.9 else r.sample(RULES, 3))]
        broken = None
        for _ in range(n):
            x = r.random()
            ins = sorted(self.inputs().items())
            if broken and r.random() < 0.6:
                steps.append(("edit", broken[0], self.content(broken[1])))
                broken = None
            elif x < 0.45:
                p, k = r.choice(ins)
                steps.append(("edit", p, self.content(k)))
            elif x < 0.53 and not broken:
                p, k = r.choice([i for i in ins if i[1] != "raw"])
                bad = BADTMPL if k in ("template", "feed") else BADSRC
                steps.append(("edit", p, r.choice(bad).encode("latin-1")) if r.random() < 0.8 else ("remove", p))
                broken = (p, k)
            elif x < 0.78:
                what = r.choice(["post", "post", "drop", "order", "tags", "pages", "set", "vars"])
                before = self.inputs()
                if what == "post":
                    self.posts = self.posts + ["n%d" % self.n]
                    self.n += 1
                elif what == "drop":
                    self.posts = self.posts[1:]
                elif what == "order":
                    r.shuffle(self.posts)
                elif what == "tags":
                    self.tags = r.choice([None, ["x"], ["x", "y"], ["y", "z"], []])
                elif what == "pages":
                    self.pages = r.choice([["about"], ["index", "new"] if self.home else ["new"], []])
                elif what == "vars":
                    self.vars["MOOD"] = "mood %d" % r.randrange(9)
                else:
                    k = r.choice(["posts_per_page", "html_order", "atom_order", "posts_sort", "date_format", "html_ext", "atom_posts_per_page"])
                    self.st[k] = r.choice(SETS.get(k, ["1", "2", "3"]))
                for f, k in sorted(self.inputs().items()):
                    if f not in before:
                        steps.append(("edit", f, self.content(k)))
                steps.append(("edit", None, self.cfg()))
            elif x < 0.84:
                steps.append(("lose", r.randrange(100)))
            elif x < 0.88:
                steps.append(("clean",))
            elif self.copy:
                steps.append(("edit", "d/e/n%d" % self.n, b"new\n"))
            if r.random() < 0.7:
                steps.append(("build", [] if r.random() < 0.8 else r.sample(RULES, r.choice([1, 2, 4]))))
        if broken:
            steps.append(("edit", broken[0], self.content(broken[1])))
        steps += [("build", [])]
        return dict(spec, steps=steps)


class Publisher:
    def __init__(self, progs, d):
        self.progs, self.d, self.n, self.lock = progs, d, 0, threading.Lock()

    def play(self, spec, only=None):
        with self.lock:
            self.n += 1
            n = self.n
        s = Site(self.progs, os.path.join(self.d, "w%d" % n), spec)
        s.blogc = self.progs["blogc"]
        rv, clock = [], 0
        out = os.path.normpath(s.out()) + b"/"
        cfg = spec["cfg"]

        def stamp(p):
            os.utime(p, ns=(PAST + clock * 10**9, PAST + clock * 10**9))
        for p in snapshot(s.base)[0]:
            stamp(p)
        for k, step in enumerate(spec["steps"]):
            clock += 1
            if step[0] == "edit":
                p = os.fsencode(s.cfgpath) if step[1] is None else s.path(step[1])
                if step[1] is None:
                    cfg = step[2]
                write(p, step[2])
                stamp(p)
            elif step[0] == "remove":
                if os.path.exists(s.path(step[1])):
                    os.unlink(s.path(step[1]))
            elif step[0] == "lose":
                there = sorted(p for p in snapshot(s.base)[0] if p.startswith(out))
                if there:
                    os.unlink(there[step[1] % len(there)])
            else:
                pre, dirs = snapshot(s.base)
                argv = [self.progs["blogc-make"]] + (["-D"] if spec["dev"] else []) + (step[1] if step[0] == "build" else ["clean"])
                if os.geteuid() == 0:
                    for x in [s.base] + dirs + list(pre):
                        os.lchown(x, NOBODY, NOBODY)
                    argv = ["setpriv", "--reuid=%d" % NOBODY, "--regid=%d" % NOBODY, "--clear-groups", "--"] + argv
                r = run(argv, cwd=s.root, env=s.env(), timeout=60)
                if r.timeout:
                    raise CheckError("blogc-make timed out: %r" % argv)
                post, _ = snapshot(s.base)
                for p in post:
                    if post[p] != pre.get(p):
                        stamp(p)
                part = lambda f, inside: {p: v for p, v in f.items() if p.startswith(out) == inside}
                enc = lambda f: [[bl(p), bl(v[0])] for p, v in sorted(f.items())]
                if step[0] == "build" and (only is None or only == k):
                    rv.append({"cfg": bl(cfg), "root": bl(os.path.normpath(s.sroot)), "outdir": opt(s.outdir), "dev": spec["dev"], "args": [bl(a) for a in step[1]],
                               "files": enc(part(pre, False)), "pre": enc(part(pre, True)), "post": enc(part(post, True)), "kept": part(pre, False) == part(post, False),
                               "ok": r.rc == 0, "err": r.err != b"" and 0 < r.rc < 90, "rc": r.rc, "stderr": r.err[-300:].decode("utf-8", "replace"), "step": k})
        shutil.rmtree(s.base, ignore_errors=True)
        if os.path.exists(s.log):
            os.unlink(s.log)
        return rv


def describe(specs):
    def f(c, e):
        s = specs[c["history"]]
        t = "history:\n" + "".join("  %s\n" % " ".join(repr(x)[:300] for x in st) for st in s["steps"][:c["step"] + 1])
        t += "settings %r\nrules %s%s: status %d, expected %s\n%s\n" % (show(c["cfg"])[-900:], [show(a) for a in c["args"]], " (development)" if c["dev"] else "", c["rc"], "success" if e["ok"] else "failure", c["stderr"])
        post = {show(p): x for p, x in c["post"]}
        n = 0
        for p, x in e["pages"]:
            q = show(p)
            if x["kind"] != "page":
                t += "%s cannot be compiled\n" % q
            elif post.get(q) != x["out"]:
                n += 1
                if n <= 3:
                    t += "%s holds %r\nexpected %r\n" % (q, show(post[q])[:700] if q in post else None, show(x["out"])[:700])
        if n > 3:
            t += "(%d pages differ)\n" % n
        mine = {show(p) for p, _ in e["pages"]}
        other = lambda fs: {show(p): x for p, x in fs if show(p) not in mine}
        a, b = other(c["pre"]), other(c["post"])
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p):
                t += "%s is not part of the site, but was %s\n" % (p, "removed" if p not in b else "changed" if p in a else "created")
        if not c["kept"]:
            t += "files outside the output directory have changed\n"
        return t[:6000]
    return f


def model_histories(r, rnd, n):
    """Histories of the model's site."""
    inputs = r.printed("INPUTS")[0]
    rel = lambda k: bytes(inputs[k - 1][0]).decode()[len("/r/"):]
    text = lambda k, x: bytes(inputs[k - 1][1][x - 1])
    kinds = {}
    for h in r.printed("CASE"):
        kinds.setdefault(json.dumps(h), h)
    hists = [kinds[k] for k in sorted(kinds)]
    rnd.shuffle(hists)
    if len(hists) < 200:
        raise CheckError("only %d histories" % len(hists))
    rv = []
    for h in hists[:n]:
        steps = []
        for what, k, x in h:
            if what == "edit":
                steps.append(("edit", None if k == 1 else rel(k), text(k, x)) if x else ("remove", rel(k)))
            elif what == "lose":
                steps.append(("lose", rnd.randrange(100)))
            else:
                steps.append(("build", []))
        rv.append({"cfg": text(1, 1), "files": {rel(k): text(k, 1) for k in range(2, len(inputs) + 1)}, "outdir": None, "dev": False, "steps": steps})
    return rv


def C25():
    chk = Check("C25", "model_checking")
    rnd = chk.rng
    r = chk.model_check("MCPublish", "MCPublish%d.cfg" % (4 if QUICK else 5), minimum=4000, timeout=800)
    # (edits that do not advance the clock get lost: the model must notice)
    chk.model_check("MCPublish", "MCPublishBlunt.cfg", expect_ok=False, timeout=300)
    specs = model_histories(r, rnd, 400 if QUICK else 4000)
    for i in range(300 if QUICK else 4000):
        specs.append(Gen(rnd).history(rnd.randrange(2, 7)))
    with Scratch() as d:
        os.chmod(d, 0o755)
        pub = Publisher(build("plain"), d)
        t = time.time()
        cases = []
        for i, cs in enumerate(pmap(pub.play, specs)):
            for c in cs:
                cases.append(dict(c, id=len(cases), history=i))
        log("  %d histories (%d builds) executed, %.1fs" % (len(specs), len(cases), time.time() - t))
        for s in specs[:: max(1, len(specs) // 5)]:
            chk.sample({"cfg": s["cfg"].decode()[-200:], "steps": [[str(x)[:60] for x in st] for st in s["steps"]]})
        chk.conform("TracePublish", cases, lambda c: dict(pub.play(specs[c["history"]], c["step"])[0], id=c["id"], history=c["history"]), describe(specs), batch=2000)
    return chk.finish(exhaustive=False, bound="all histories of %d edits, losses and builds of the model's site (TLC), some of them replayed; random sites and histories" % (4 if QUICK else 5),
                      histories=len(specs), builds=len(cases), failed_builds=sum(not c["ok"] for c in cases), pages=sum(len(c["post"]) for c in cases))
