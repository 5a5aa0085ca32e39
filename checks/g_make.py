"""C12-C16 building sites."""
import itertools
from vp import *
from sitelib import *
from g_config import REQ, GLOBAL, SETTINGS, FILES, COPIES, mutate_key

RULES = ["index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "copy"]
TAGS = ["x", "y", "x y", "", "z", "xx", "y  x", "X", "x,y", None]


def glue(*parts):
    return "/".join(p for p in parts if p)


def post_path(st, slug):
    """Where the source of a post is: path of the content directory, prefixes, slug (all not empty in generated sites)."""
    d = st.get("content_dir", "content")
    return glue(d, st.get("blog_prefix", ""), st.get("post_prefix", "post"), slug) + st.get("source_ext", ".txt")


def source(vs):
    return "".join("%s: %s\n" % kv for kv in vs).encode() + b"-----\ntext\n"


def site(st, posts, pages=(), tags=None, copy=None, vars=(), missing=(), **kw):
    """A site whose sources exist. posts: [(slug, [(k, v)])]"""
    cfg = GLOBAL + "".join("%s = %s\n" % kv for kv in vars)
    if st:
        cfg += "[settings]\n" + "".join("%s = %s\n" % kv for kv in sorted(st.items()))
    if posts is not None:
        cfg += "[posts]\n" + "".join(s + "\n" for s, _ in posts)
    if pages:
        cfg += "[pages]\n" + "".join(s + "\n" for s in pages)
    if tags is not None:
        cfg += "[tags]\n" + "".join(s + "\n" for s in tags)
    files, vs = dict(kw.pop("files", {})), {}
    if copy is not None:
        cfg += "[copy]\n" + "".join(s + "\n" for s in copy)
        kw.setdefault("copies", COPIES)
        kw.setdefault("dirs", ["empty"])
        files.update(FILES)
    for i, (slug, v) in enumerate(posts or ()):
        p = post_path(st, slug)
        if i not in missing and not p.startswith("/"):
            files[p] = source(v)
            vs[p] = [("FILENAME", slug.split("/")[-1])] + v
    files[st.get("template_dir", "templates") + "/" + st.get("main_template", "main.tmpl")] = b"{{ TITLE }}\n"
    return dict({"cfg": cfg.encode(), "files": {k: v for k, v in files.items() if not k.startswith("/")}, "vars": vs}, **kw)


def rand_posts(r, n, dates=True):
    rv = []
    for i in range(n):
        v = [("TITLE", "t%d" % i)]
        if dates:
            v.append(("DATE", "20%02d-%02d-%02d %02d:00:00" % (r.randrange(10, 14), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24))))
        t = r.choice(TAGS)
        if t is not None:
            v.append(("TAGS", t))
        r.shuffle(v)
        rv.append(("p%d" % i, v))
    return rv


def c12_specs(rnd):
    specs = []
    # number of pages: every number of posts and size of a page, by rule
    for n in list(range(0, 8)) + [9, 10, 11, 19, 20, 21, 30]:
        for per in ["-1", "0", "1", "2", "3", "4", "5", "7", "10", "x", "", "3x", "007"] + ([None] if n > 7 else []):
            if n > 11 and per == "1" and QUICK:
                continue
            st = {} if per is None else {"posts_per_page": per}
            if rnd.random() < 0.3:
                st["atom_posts_per_page"] = rnd.choice(["0", "-1", "1", "2", "5"])
            if rnd.random() < 0.5:
                st["html_order"] = rnd.choice(["ASC", "asc", "DESC"])
                st["posts_sort"] = rnd.choice(["1", "0"])
            specs.append(site(st, rand_posts(rnd, n), tags=rnd.choice([None, ["x"], ["x", "y"], ["x", "y", "z", "nope"]]), pages=rnd.choice([[], ["index", "about"]])))
    # sources that cannot be read, or not be ordered
    for i in range(8):
        specs.append(site({"posts_sort": "1"} if i % 2 else {}, rand_posts(rnd, 3, dates=i > 3), tags=["x"], missing=[1] if i % 4 == 2 else []))
    # every combination of rules
    combos = [[a] for a in RULES + ["all", "atom_dump", "nothing", "", ":", "Index", "index ", "tag", "all:x=y", "index:a=b,c=d", "posts:", "allx", "clea"]]
    combos += [[a, b] for a in RULES for b in RULES]
    combos += [["index", "nothing", "posts"], ["all", "index"], ["posts", "all"], ["copy:x", "pages:y=z"], ["nothing", "index"], ["index", "", "posts"], RULES, RULES[::-1]]
    for c in combos:
        for st in ({}, {"posts_per_page": "2", "blog_prefix": "b"}) if len(c) == 1 else ({"posts_per_page": "2"},):
            specs.append(site(st, rand_posts(rnd, 3), tags=["x", "y"], pages=["index", "about"], copy=["f.css", "d"], args=c))
    # which lists there are
    for k in range(32):
        w = lambda i, x: x if k >> i & 1 else None
        specs.append(site({"posts_per_page": "2"}, w(0, rand_posts(rnd, 3)), pages=w(1, ["a"]) or (), tags=w(2, ["x", "y"]), copy=w(3, ["d"]), args=[["all"], RULES][k >> 4]))
    # paths
    for rule in ("index", "atom", "atom_tags", "pagination", "pagination_tags", "posts", "tags", "pages", "atom_dump"):
        ext, pre = ("atom_ext", "atom_prefix") if rule.startswith("atom") else ("html_ext", {"index": "index_prefix", "posts": "post_prefix", "tags": "tag_prefix",
                                                                                            "pagination": "pagination_prefix", "pagination_tags": "tag_prefix"}.get(rule, "index_prefix"))
        for b, p, e, q in itertools.product([None, "", "bl", "b/c"], [None, "", "pp", "q/r"], [None, "", ".h", "/index.x", "x"], [None, "", "pg"] if rule == "pagination_tags" else [None]):
            st = {k: v for k, v in (("blog_prefix", b), (pre, p), (ext, e), ("pagination_prefix", q)) if v is not None}
            if rule == "atom_dump":
                for pp, h in itertools.product([None, "", "po"], [None, "", ".html", "/i"]):
                    if rnd.random() < (0.15 if QUICK else 1):
                        st2 = dict(st, **{k: v for k, v in (("post_prefix", pp), ("html_ext", h)) if v is not None})
                        specs.append(site(st2, rand_posts(rnd, 1), args=[rule]))
                continue
            posts = [("a", [("TAGS", "x y")]), ("d/e", [("TAGS", "y")])]
            specs.append(site(dict(st, posts_per_page="1"), posts, tags=["x", "y"], pages=["index", "about", "d/e", "indexx"], args=[rule]))
    # where things are
    for out in [None, "", "_b", "_build/", "o//", "a/b", "@/out", "@/out///", "o p", "é", "./o", "../o", "_build/x"]:
        for name in ["blogcfile", "x", "sub/blogcfile", "./blogcfile", "a b/c", "sub/../blogcfile"]:
            for dev in (False, True):
                specs.append(site({"posts_per_page": "2"}, rand_posts(rnd, 3), tags=["x"], pages=["a"], copy=["f.css", "d"], outdir=out, cfgname=name, dev=dev))
    # every setting under every rule
    for k in sorted(SETTINGS):
        if k in ("content_dir", "template_dir", "source_ext", "run_from_make", "atom_legacy_entry_id"):
            continue
        for v in SETTINGS[k]:
            if v == "/":
                continue
            specs.append(site({k: v, **({"posts_per_page": "2"} if k != "posts_per_page" else {})}, rand_posts(rnd, 3), tags=["x", "y"], pages=["index", "a"], copy=["g h"]))
    # variables that the rules define as well
    own = ["MAKE_TAGS", "DATE_FORMAT", "FILTER_TAG", "FILTER_PAGE", "FILTER_PER_PAGE", "FILTER_SORT", "FILTER_REVERSE", "IS_POST", "MAKE_RULE", "MAKE_TYPE", "MAKE_SLUG",
           "MAKE_ENV", "MAKE_ENV_DEV", "CURRENT_PAGE", "LAST_PAGE", "AUTHOR_NAME"]
    for k in own:
        for v in ("1", "x", "2", ""):
            specs.append(site({"posts_per_page": "2"}, rand_posts(rnd, 3), tags=["x"], pages=["a"], vars=[(k, v)], dev=rnd.random() < 0.5))
    for i in range(900 if QUICK else 14000):
        st = {}
        for k in SETTINGS:
            if rnd.random() < 0.18 and k not in ("run_from_make", "atom_legacy_entry_id"):
                st[k] = rnd.choice(SETTINGS[k] if k not in ("content_dir", "source_ext", "html_ext") else [x for x in SETTINGS[k] if x not in ("", "/")])
        if rnd.random() < 0.7:
            st["posts_per_page"] = rnd.choice(["1", "2", "3", "4", "-1", "5"])
        n = rnd.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 11])
        posts = rand_posts(rnd, n, dates=rnd.random() < 0.9)
        if rnd.random() < 0.3:
            posts = [(rnd.choice(["%s", "d/%s", "%s é", "%s x", "%s.y"]) % s, v) for s, v in posts]
        s = site(st, posts, tags=rnd.choice([None, [], ["x"], ["x", "y"], ["x", "y", "z", "xx", "X", "nope", "é", "a b"]]),
                 pages=rnd.sample(["index", "about", "a/b", "x y", "é", "index.x", "q"], rnd.choice([0, 1, 3])), copy=rnd.choice([None, None, ["f.css"], ["d", "g h"], ["empty"], ["d/e", "ë"]]),
                 vars=[(rnd.choice(own + ["K", "LONG_NAME", "BASE_URL"]), rnd.choice(["", "v", "a b", "2", "x"])) for _ in range(rnd.choice([0, 0, 0, 1, 2]))],
                 missing=[0] if rnd.random() < 0.04 else [], dev=rnd.random() < 0.15, outdir=rnd.choice([None, None, None, "o", "@/x/", "a b"]),
                 cfgname=rnd.choice(["blogcfile", "blogcfile", "c", "s/c"]), make=rnd.random() < 0.1)
        if rnd.random() < 0.5:
            s["args"] = rnd.sample(RULES + ["all", "nothing"][: rnd.choice([1, 1, 1, 2])], rnd.choice([1, 2, 3]))
        specs.append(s)
    return specs


def C12():
    chk = Check("C12", "model_checking")
    chk.model_check("MCSite", "MCSite%s.cfg" % ("q" if QUICK else "3"), minimum=800, timeout=880)
    specs = c12_specs(chk.rng)
    with Scratch() as d:
        cov = execute(chk, specs, d, "plain")
    return chk.finish(exhaustive=False, bound="numbers of posts 0..30 by sizes of a page, all pairs of rules, all products of prefixes and extensions by rule, every setting, "
                      "output directories and names of settings files, random sites", **cov)


# the site of MCBuild
M_CFG = GLOBAL + """[settings]
content_dir = c
template_dir = t
atom_template = a
main_template = m
source_ext = .s
listing_entry = e
html_ext = .h
post_prefix = po
posts_per_page = 1
atom_posts_per_page = 1
date_format = %Y
[posts]
p
q
[pages]
about
[copy]
d
"""
M_IN = ["blogcfile", "t/m", "c/e.s", "t/a", "c/po/p.s", "c/po/q.s", "c/about.s", "d/x"]
M_OUT = ["index.h", "atom.xml", "page/1.h", "page/2.h", "po/p.h", "po/q.h", "about.h", "d/x"]
SCHEMES = {"1ns": lambda t: 999999998 + t, "1us": lambda t: 999997000 + 1000 * t, "0.4s": lambda t: 400000000 * t, "1s": lambda t: 1000000000 * t,
           "1s-1ns": lambda t: 999999999 * t, "1h": lambda t: 3600 * 10**9 * t + 5}
MODES = {"kept": ["exit", "kill"], "gone": ["partial", "pkill"], "after": ["parent"], "torn": ["pparent"]}


def model_site(**kw):
    files = {p: b"0" for p in M_IN[1:]}
    for p in ("c/po/p.s", "c/po/q.s", "c/about.s", "c/e.s"):
        files[p] = b"A: b\n-----\n0\n"
    return dict({"cfg": M_CFG.encode(), "files": files, "vars": {"c/po/p.s": [("FILENAME", "p")], "c/po/q.s": [("FILENAME", "q")]}, "copies": [["d", ["d/x"]]],
                 "outdir": "_b"}, **kw)


def model_edit(i, n, dt):
    if i == 0:
        return ("cfg", (M_CFG + "# %d\n" % n).encode(), dt)
    return ("edit", M_IN[i], (b"A: b\n-----\n%d\n" if M_IN[i][0] == "c" else b"%d") % n, dt)


def model_history(hist, r):
    steps = []
    for n, (what, a, b) in enumerate(hist):
        if what == "edit":
            steps.append(model_edit(a - 1, n, b))
        elif what == "remove":
            steps.append(("lose", M_OUT[a - 1]))
        elif what == "clean":
            steps.append(("clean",))
        else:
            steps.append(("build", [], (a, r.choice(MODES[b])) if a else None))
    if hist[-1][0] != "build" or hist[-1][1]:
        steps.append(("build", [], None))
    steps.append(("build", [], None))
    return steps


def timed(spec, r, scheme=None):
    spec["scheme"] = scheme or r.choice(sorted(SCHEMES))
    spec["time"] = SCHEMES[spec["scheme"]]
    return spec


B0 = ("build", [], None)


def systematic_histories(rnd):
    rv = []
    add = lambda steps, sch=None: rv.append(timed(model_site(steps=steps), rnd, sch))
    for sch in sorted(SCHEMES):
        for i in range(len(M_IN)):
            for dt in (0, 1):
                add([B0, model_edit(i, 1, dt), B0, B0], sch)
    for i in range(len(M_OUT)):
        add([B0, ("lose", M_OUT[i]), B0, B0])
        add([B0, ("touch", M_OUT[i], 1), B0, model_edit(rnd.randrange(8), 1, 1), B0])
        for j in range(len(M_IN)):
            add([B0, model_edit(j, 1, 1), ("touch", M_OUT[i], rnd.choice([0, 1])), B0])
    for stop in range(1, 8):
        for mode in ("exit", "kill", "partial", "pkill", "parent", "silent", "pparent"):
            if mode == "pparent" and stop not in (1, 5):
                continue
            add([("build", [], (stop, mode)), B0, B0])
            add([B0, model_edit(0, 1, 1), ("build", [], (stop, mode)), B0, B0])
            if stop < 5:
                add([B0, model_edit(5, 1, 1), ("build", [], (stop, mode)), model_edit(4, 1, 1), ("build", [], (1, "exit")), B0, B0])
    for a in M_OUT[:2] + ["d/x"]:
        for rule in RULES:
            add([B0, ("lose", a), ("build", [rule], None), B0])
    for rule in RULES:
        add([("build", [rule], None), model_edit(1, 1, 1), ("build", [rule], None), ("build", [rule], None), B0])
    add([B0, ("add", "d/new", b"n", 1), B0, ("add", "d/y/z", b"n", 0), B0, B0])
    add([B0, ("clean",), B0, ("clean",), ("clean",), model_edit(4, 1, 1), B0])
    return rv


WIDE_OUT = (["index.html", "atom.xml"] + ["atom/%s.xml" % t for t in "xyz"] + ["page/%d.html" % i for i in (1, 2, 3, 4)] + ["tag/x/page/%d.html" % i for i in (1, 2, 3)] +
            ["tag/y/page/%d.html" % i for i in (1, 2, 3, 4)] + ["post/%s.html" % p for p in "pqrs"] + ["tag/%s.html" % t for t in "xyz"] + ["about.html", "a/b.html", "d/a", "d/e/b", "f.css"])


def wide_histories(rnd):
    """A site with several outputs of every kind: every input is edited, every output is lost or older than one of the inputs."""
    st = {"posts_per_page": "1", "atom_posts_per_page": "2", "html_ext": ".html", "listing_entry": "e", "atom_template": "atom.tmpl"}
    posts = [(n, [("TITLE", n), ("DATE", "2011-0%d-01" % (i + 1)), ("TAGS", ["x y", "y", "y x", "x y"][i])]) for i, n in enumerate("pqrs")]
    files = {"content/e.txt": b"A: b\n-----\n0\n", "content/about.txt": b"A: b\n-----\n0\n", "content/a/b.txt": b"A: b\n-----\n0\n", "templates/atom.tmpl": b"0"}

    def edit(x, n, dt):
        if x == "blogcfile":
            return ("cfg", spec()["cfg"] + b"# %d\n" % n, dt)
        if x in dict(posts):
            v = dict(posts)[x] + [("N", str(n))]
            return ("post", post_path(st, x), source(v), [("FILENAME", x)] + v, dt)
        return ("edit", x, b"A: b\n-----\n%d\n" % n, dt)
    ins = ["blogcfile", "templates/main.tmpl", "d/a", "f.css"] + sorted(files) + list("pqrs")

    def spec(steps=()):
        s = site(st, posts, pages=["about", "a/b"], tags=["x", "y", "z"], copy=["d", "f.css"], files=files)
        return timed(dict(s, steps=list(steps)), rnd)
    rv = []
    for x in ins:
        for dt in (0, 1):
            rv.append(spec([B0, edit(x, 1, dt), B0, B0]))
    for o in WIDE_OUT:
        rv.append(spec([B0, ("lose", o), B0]))
        rv.append(spec([B0, edit(rnd.choice(ins), 1, 1), ("touch", o, rnd.choice([0, 1])), B0]))
    if not QUICK:
        for o in WIDE_OUT:
            for x in ins:
                rv.append(spec([B0, edit(x, 1, 1), ("touch", o, rnd.choice([0, 1])), B0, B0]))
        for x in ins:
            for y in ins:
                rv.append(spec([B0, edit(x, 1, 1), ("build", [rnd.choice(RULES)], None), edit(y, 2, rnd.choice([0, 1])), B0, B0]))
    return rv


def random_history(rnd):
    """A site whose configuration and sources change."""
    st = {"posts_per_page": rnd.choice(["1", "2", "3"])}
    for k in ("html_ext", "blog_prefix", "posts_sort", "html_order", "atom_posts_per_page"):
        if rnd.random() < 0.3:
            st[k] = rnd.choice([x for x in SETTINGS[k] if x not in ("", "/")])
    posts = rand_posts(rnd, rnd.randrange(1, 5))
    tags = rnd.choice([None, ["x"], ["x", "y"]])
    pages = rnd.choice([[], ["index"], ["about", "a/b"]])
    copy = rnd.choice([None, ["d"], ["f.css", "d/e"]])
    spec = site(st, posts, pages=pages, tags=tags, copy=copy)
    for p in pages:
        spec["files"]["content/" + p + ".txt"] = b"A: b\n-----\nx\n"
    live = dict(spec["files"])
    cur = [posts, tags, pages]
    steps = [("build", [] if rnd.random() < 0.8 else rnd.sample(RULES, 3), None)]
    for n in range(rnd.randrange(2, 7)):
        x = rnd.random()
        dt = rnd.choice([0, 1, 1, 2])
        if x < 0.25:
            i = rnd.randrange(len(cur[0]))
            slug, v = cur[0][i]
            v = rand_posts(rnd, 1)[0][1]
            p = post_path(st, slug)
            steps.append(("post", p, source(v), [("FILENAME", slug.split("/")[-1])] + v, dt))
        elif x < 0.4:
            p = rnd.choice(sorted(k for k in live if not k.startswith(glue(st.get("content_dir", "content"), st.get("blog_prefix", ""), "post/"))))
            steps.append(("edit", p, b"A: b\n-----\n%d\n" % n, dt))
        elif x < 0.55:
            slug = "n%d" % n
            v = rand_posts(rnd, 1)[0][1]
            st2 = dict(st)
            if rnd.random() < 0.5:
                cur[0] = cur[0] + [(slug, v)]
            elif len(cur[0]) > 1:
                cur[0] = cur[0][1:]
            cur[1] = rnd.choice([cur[1], None, ["x"], ["x", "y"], ["y", "z"]])
            s2 = site(st2, cur[0], pages=cur[2], tags=cur[1], copy=copy)
            if cur[0][-1][0] == slug:
                p = post_path(st, slug)
                steps.append(("post", p, source(v), [("FILENAME", slug)] + v, 0))
            steps.append(("cfg", s2["cfg"], dt))
        elif x < 0.62:
            steps.append(("clean",))
        elif x < 0.7 and copy:
            steps.append(("add", "d/e/n%d" % n, b"n", dt))
        else:
            steps.append(("lose", rnd.choice(["index.html", "atom.xml", "atom/index.html", "page/1/index.html", "post/p0/index.html", "tag/x/index.html", "f.css", "d/a", "about/index.html"])))
        if rnd.random() < 0.6:
            fail = None
            if rnd.random() < 0.35:
                fail = (rnd.randrange(1, 9), rnd.choice(["exit", "kill", "partial", "pkill", "parent", "silent"]))
            steps.append(("build", [] if rnd.random() < 0.75 else rnd.sample(RULES, rnd.choice([1, 2])), fail))
    steps += [B0, B0]
    return timed(dict(spec, steps=steps), rnd)


def C13():
    chk = Check("C13", "model_checking")
    r = chk.model_check("MCBuild", "MCBuild%d.cfg" % (3 if QUICK else 4), minimum=10000, timeout=900)
    hists = r.printed("CASE")
    if len(hists) < 10000:
        raise CheckError("only %d histories" % len(hists))
    rnd = chk.rng
    rnd.shuffle(hists)
    specs = systematic_histories(rnd) + wide_histories(rnd)
    # all kinds of histories (sequences of actions), the same number of each
    kinds = {}
    for h in hists:
        kinds.setdefault(tuple((x[0], x[2] if x[0] != "remove" else 0) for x in h), []).append(h)
    per = 1 if QUICK else 12
    for k in sorted(kinds, key=str):
        for h in kinds[k][:per]:
            specs.append(timed(model_site(steps=model_history(h, rnd)), rnd))
    for i in range(100 if QUICK else 2500):
        specs.append(random_history(rnd))
    left = set(os.listdir("/tmp"))
    with Scratch() as d:
        cov = replay(chk, specs, d)
    # (killed runs leave their temporary templates)
    for f in set(os.listdir("/tmp")) - left:
        if f.startswith("blogc-make_"):
            os.unlink(os.path.join("/tmp", f))
    return chk.finish(exhaustive=False, bound="all histories of %d actions on the model's site (TLC), %d of them replayed; every input, output and compilation in turn in six "
                      "time scales; random sites and histories" % (3 if QUICK else 4, per * len(kinds)), **cov)


CLEAN_SITES = [({}, 3, ["x", "y"], ["index", "about", "a/b"], ["f.css", "d", "g h"]),
               ({"html_ext": ".html", "posts_per_page": "1", "blog_prefix": "bl"}, 2, ["x"], ["index"], ["d/e"]),
               ({"post_prefix": "", "tag_prefix": "", "pagination_prefix": "", "atom_prefix": "", "html_ext": ".h"}, 2, ["t1"], ["about"], None),
               ({"posts_sort": "1"}, 0, None, ["a/b/c/d"], ["ë", "empty"]),
               ({}, None, None, ["about"], None)]


def clean_site(k, r, **kw):
    st, n, tags, pages, copy = CLEAN_SITES[k]
    r = random.Random(k + 7)
    s = site(st, None if n is None else rand_posts(r, n), tags=tags, pages=pages, copy=copy, **kw)
    for p in pages:
        s["files"]["content/" + p + ".txt"] = b"TITLE: " + p.encode() + b"\n-----\nx **y**\n"
    s["files"]["templates/main.tmpl"] = b"{% block entry %}{{ TITLE }} {{ CONTENT }}{% endblock %}{% block listing %}{{ TITLE }} {{ DATE }}{% endblock %}\n"
    return s


def below(outputs):
    """The directories that contain files of a list, below the output directory."""
    rv = {""}
    for o in outputs:
        parts = o.split("/")[:-1]
        for i in range(len(parts)):
            rv.add("/".join(parts[:i + 1]))
    return sorted(rv)


def outputs_of(progs, d, spec):
    """What a build makes, below the output directory (observed)."""
    s = Site(progs, os.path.join(d, "o" + os.urandom(6).hex()), spec)
    c = s.run()
    o = s.out() + b"/"
    rv = [unbl(p)[len(o):].decode() for p, _ in c["post"] if unbl(p).startswith(o)]
    shutil.rmtree(s.base)
    if not c["ok"]:
        raise CheckError("the site cannot be built: " + c["stderr"])
    return rv


def clean_histories(rnd, progs, d):
    rv = []

    def add(k, steps, **kw):
        rv.append(timed(clean_site(k, rnd, steps=steps, **kw), rnd))
    C = ("clean",)
    outdirs = [None, "", "_b", "_build/", "o//", "a/b", "@/out", "@/out///", "o p", "é", "./o", "../o", ".", "a/b/c/", "content/x", "d"]
    for k in range(len(CLEAN_SITES)):
        outs = outputs_of(progs, d, clean_site(k, rnd))
        dirs = below(outs)
        for o in outdirs:
            if o == "d" and k not in (2, 4):
                continue
            pre = {None: "_build", "": "_build"}.get(o, o).replace("@", "..")
            add(k, [B0, C, C, B0], outdir=o)
            add(k, [C, ("mkdir", pre), C], outdir=o)
            add(k, [("edit", pre.rstrip("/") + "2/index.html", b"x", 0), B0, ("edit", pre + "/keep", b"x", 1), C, C], outdir=o)
            if o != ".":
                add(k, [("mkdir", os.path.dirname(pre.rstrip("/")) or "zz"), B0, ("edit", pre + "/post/keep", b"x", 1), ("mkdir", pre + "/e/e"), C], outdir=o)
        for x in dirs:
            p = "_build/" + x + ("/" if x else "")
            add(k, [B0, ("edit", p + "keep", b"x", 1), C, C])
            add(k, [("edit", p + "index.html", b"x", 0), ("edit", p + ".hidden", b"x", 1), C])
            add(k, [B0, ("mkdir", p + "dir"), C, B0, C])
            add(k, [B0, ("edit", p + "dir/sub/keep", b"x", 1), ("mkdir", p + "dir/empty"), C])
            add(k, [("mkdir", p + "pre"), B0, C])
            if x:
                add(k, [("mkdir", p), C])
                add(k, [("mkdir", p), ("lose", x), C, B0, ("edit", p + "-", b"", 1), C])
        for n in ("..keep", "...", ".x", " ", "-rf", "\n", "é", "*", "x" * 255, ".git/x", "..d/x", "~", "index.html.", "\\"):
            for x in rnd.sample(dirs, min(2, len(dirs))) if QUICK else dirs:
                p = "_build/" + x + ("/" if x else "")
                add(k, [B0, ("edit", p + n, b"x", 1), C, C])
                add(k, [B0, ("mkdir", p + n), C])
        for x in outs:
            add(k, [("edit", "_build/" + x, b"mine", 1), C])
            add(k, [("edit", "_build/" + x, b"mine", 1), ("edit", "_build/" + x + "~", b"mine", 1), C])
            add(k, [("edit", "_build/" + x, b"mine", 1), ("edit", os.path.dirname("_build/" + x) + "/index.htm", b"mine", 1), C])
            add(k, [("edit", "mine", b"mine", 1), ("link", "_build/" + x, "../" * x.count("/") + "../mine"), C])
        # a configuration that has changed since the build
        for k2 in range(len(CLEAN_SITES)):
            if k2 != k:
                s2 = clean_site(k2, rnd)
                add(k, [B0, ("cfg", s2["cfg"], 1), ("copies", COPIES), C, C], files=s2["files"], dirs=["empty"], copies=COPIES)
                rv[-1]["vars"] = dict(s2["vars"], **rv[-1]["vars"])
        for a in (["clean", "all"], ["all", "clean"], ["clean", "clean"], ["index", "clean"], ["clean", "index"], ["clean:x=y"], ["posts", "clean", "pages"], ["clean", "nothing"], ["nothing", "clean"]):
            add(k, [B0, ("edit", "_build/keep", b"x", 1), ("build", a, None), C])
            add(k, [("build", a, None), C])
        add(k, [B0, C, B0], dev=True)
        for stop in (1, 2, 4):
            for mode in ("exit", "partial", "parent", "pparent"):
                add(k, [("build", [], (stop, mode)), C, B0, C])
        # the tree that a build after cleaning makes
        for o in (None, "@/o", "o/p"):
            pre = (o or "_build").replace("@", "..")
            st = [("build", [], None, None)[:3], ("remember",)]
            add(k, st + [C, ("build", [], None, "same")], real=True, outdir=o)
            add(k, [("edit", pre + "/a/keep", b"x", 0)] + st + [C, C, ("build", [], None, "same")], real=True, outdir=o)
            if CLEAN_SITES[k][3] != ["index"]:
                add(k, [B0, ("edit", "content/%s.txt" % CLEAN_SITES[k][3][-1], b"TITLE: new\n-----\nnew\n", 1), B0, ("remember",), C, ("build", [], None, "same")], real=True, outdir=o)
    for i in range(40 if QUICK else 1500):
        h = random_history(rnd)
        for j in range(1, len(h["steps"])):
            x = rnd.random()
            if x < 0.3:
                h["steps"][j:j] = [C]
            elif x < 0.5:
                h["steps"][j:j] = [("edit", "_build/" + rnd.choice(["", "post/", "d/", "page/1/", "zz/", "tag/x/"]) + "keep", b"k", 0), C]
        h["steps"] += [C]
        rv.append(h)
    return rv


def C14():
    chk = Check("C14", "model_checking")
    chk.model_check("MCClean", "MCClean3.cfg", minimum=30000, timeout=900)
    progs = build("plain")
    with Scratch() as d:
        os.chmod(d, 0o755)
        specs = clean_histories(chk.rng, progs, d)
        cov = replay(chk, specs, d)
    return chk.finish(exhaustive=False, bound="five sites, 16 output directories; extra files and directories in every directory of the tree and beside every output, lost outputs, "
                      "links, changed configurations, failed builds; random sites and histories", **cov)


HOSTILE = ["$(touch hacked)", "`touch hacked`", "; touch hacked", "'; touch hacked; '", "\"; touch hacked; \"", "a b", " a", "a ", "'", "''", "\"", "\\", "\\\\", "a\\", "!", "!!", "'!'", "*", "?", "[a]", "{a,b}", "~",
           "~root", "#", "# c", "a #b", "&", "&& touch hacked", "| touch hacked", "> hacked", "< /dev/null", "$HOME", "${HOME}", "$$", "$'a'", "-", "--", "-l", "-o hacked", "-D X=1", "=", "a=b", "%s%n%d", "%",
           "é", "日本", "\U0001f600", "\u00a0", "\x01", "\x7f", "\t", "a\tb", "\x1b[0m", "\\n", "\\'", "'\\''", "'\"'\"'", "$(a", "`", ")", "(", "a;b", "a\\ b", ":", "a:b", ",", "a,b", "@", "^", "+", "..",
           "\u2028", "x" * 3000, "'" * 200, "!" * 100, "a'b!c\"d$e"]
SHELL = "a '\"\\$`;!*#=-&|(~"


def quoted(s):
    return "\"" + s.replace("\\", "\\\\").replace("\"", "\\\"") + "\""


def hostile_sites(rnd):
    """Every text over some characters, many per site, and hostile texts in every position."""
    specs = []
    texts = ["".join(x) for k in (1, 2) for x in itertools.product(SHELL, repeat=k)]
    three = ["".join(x) for x in itertools.product(SHELL, repeat=3)]
    texts += rnd.sample(three, 1000 if QUICK else len(three)) + HOSTILE
    texts += ["".join(rnd.choice(SHELL + "bé{}<>[]?\t%:,") for _ in range(rnd.randrange(4, 24))) for _ in range(400 if QUICK else 8000)]
    V = 70
    for i in range(0, len(texts), V):
        part = texts[i:i + V]
        specs.append({"cfg": (GLOBAL + "".join("K%d = %s\n" % (j, quoted(t)) for j, t in enumerate(part)) + "[posts]\np\n[pages]\nx\n").encode(), "args": ["index", "pages", "atom"]})
    slugs = [t for t in texts if "/" not in t and len(t.encode()) < 200 and t not in (".", "..", "-")]
    S = 40
    for i in range(0, len(slugs), S):
        part = slugs[i:i + S]
        kind = i // S % 3
        if kind == 0:
            c = "[posts]\n" + "".join(quoted(t) + "\n" for t in part) + "[pages]\na\n"
            specs.append({"cfg": (GLOBAL + "[settings]\nhtml_ext=.h\n" + c).encode(), "args": ["posts", "index"]})
        elif kind == 1:
            c = "[pages]\n" + "".join(quoted(t) + "\n" for t in part)
            specs.append({"cfg": (GLOBAL + "[settings]\nhtml_ext=.h\n" + c).encode(), "args": ["pages"]})
        else:
            # tags, and listing pages, for which blogc is asked
            s = site({"posts_per_page": "1", "html_ext": ".h"}, rand_posts(rnd, 2), tags=None, vars=[("K", quoted(part[0]))])
            s["cfg"] += b"[tags]\n" + "".join(quoted(t) + "\n" for t in part[:12]).encode()
            s["args"] = ["tags", "pagination", "pagination_tags", "atom_tags"]
            specs.append(s)
    singles = ["content_dir", "template_dir", "atom_template", "main_template", "source_ext", "listing_entry", "pagination_prefix", "html_ext", "index_prefix", "post_prefix", "tag_prefix", "blog_prefix",
               "atom_prefix", "atom_ext", "date_format", "locale", "posts_per_page", "html_order"]
    for k in singles:
        for t in HOSTILE:
            if len(t.encode()) > 200 and k not in ("date_format", "locale"):
                continue
            if rnd.random() < (0.5 if QUICK else 1):
                specs.append({"cfg": (GLOBAL + "[settings]\n%s = %s\n%s[posts]\na\n[pages]\nb\n[tags]\nt\n" % (k, quoted(t), "atom_template = x\n" if k == "locale" else "")).encode(),
                              "args": ["index", "posts", "pages", "tags", "atom"]})
    names = [t for t in HOSTILE if "/" not in t and 0 < len(t.encode()) < 200 and t not in (".", "..")]
    for t in names:
        specs.append(site({}, rand_posts(rnd, 1), pages=["a"], copy=["f.css"], cfgname=("./" if t[0] == "-" else "") + t, f=True))
        specs.append(site({}, rand_posts(rnd, 1), pages=["a"], copy=["f.css"], rootname=t))
        specs.append(site({}, rand_posts(rnd, 1), pages=["a"], copy=["f.css"], rootname="r", cfgname="s " + t + "/c"))
        specs.append(site({}, rand_posts(rnd, 1), pages=["a"], copy=["f.css"], outdir=t))
        specs.append(site({}, rand_posts(rnd, 1), pages=["a"], copy=["f.css"], outdir="@/" + t + "/o"))
        specs.append(site({"posts_per_page": "1"}, rand_posts(rnd, 1), pages=["a"], blogc=t))
        if t.strip(" \t") == t:
            specs.append(dict(site({}, None, copy=[]), files={t: b"1", "sub/" + t: b"2"}, dirs=[], copies=[["sub", ["sub/" + t]]]))
            specs[-1]["cfg"] += (quoted(t) + "\nsub\n").encode()
    return specs


def serve_case(progs, d, n, spec):
    base = os.path.join(d, "v%d" % n)
    root = os.path.join(base, spec.get("root", "r"))
    os.makedirs(root)
    write(os.path.join(root, "blogcfile"), (GLOBAL + "[pages]\na\n").encode())
    server = os.path.join(base, "blogc-runserver")
    with open(server, "w") as f:
        # (each argument in a file of its own)
        f.write("#!/bin/sh\nn=0\nprintf x >> '%s/runs'\nfor a; do n=$((n+1)); printf %%s \"$a\" > '%s'/arg$n; done\nsleep 0.4\nexit %d\n" % (base, base, spec.get("rc", 0)))
    os.chmod(server, 0o755)
    log_ = os.path.join(base, "log")
    env = {"BLOGC": stub(), "STUB_LOG": log_, "STUB_REAL": progs["blogc"], "BLOGC_RUNSERVER": server}
    if spec.get("outdir") is not None:
        env["OUTPUT_DIR"] = spec["outdir"]
    if os.geteuid() == 0:
        for x in (base, root):
            os.chown(x, NOBODY, NOBODY)
    pre = ["setpriv", "--reuid=%d" % NOBODY, "--regid=%d" % NOBODY, "--clear-groups", "--"] if os.geteuid() == 0 else []
    r = run(pre + [progs["blogc-make"], spec["rule"]], cwd=root, env=env, timeout=60)
    if r.timeout:
        raise CheckError("blogc-make runserver timed out")
    args, k = [], 1
    while os.path.exists(os.path.join(base, "arg%d" % k)):
        with open(os.path.join(base, "arg%d" % k), "rb") as f:
            args.append(f.read())
        k += 1
    opts, rest, i = [], [], 0
    while i < len(args):
        if args[i] in (b"-t", b"-p", b"-m") and i + 1 < len(args):
            opts.append([bl(args[i]), bl(args[i + 1])])
            i += 2
        else:
            rest.append(bl(args[i]))
            i += 1
    runs = os.path.getsize(os.path.join(base, "runs")) if os.path.exists(os.path.join(base, "runs")) else 0
    hacked = [f for f in os.listdir(root) if f not in ("blogcfile", "_build") and f not in (spec.get("outdir") or "").split("/")]
    shutil.rmtree(base, ignore_errors=True)
    return {"id": spec["id"], "rule": bl(spec["rule"]), "root": bl(root), "outdir": opt(spec.get("outdir")), "opts": opts, "rest": rest + [bl("created " + f) for f in hacked],
            "runs": runs, "rc": spec.get("rc", 0), "status": r.rc}


def serve_specs(rnd):
    specs = [{"rule": "runserver"}, {"rule": "runserver:"}, {"rule": "runserver:x"}]
    for t in HOSTILE:
        if "," in t or len(t) > 250:
            continue
        k = rnd.choice(["host", "port", "threads"])
        specs.append({"rule": "runserver:%s=%s" % (k, t), "outdir": t if rnd.random() < 0.5 and "/" not in t and t not in ("..", ".") else None})
        if rnd.random() < 0.5 or not QUICK:
            specs.append({"rule": "runserver:host=%s,port=%s,threads=%s" % (t, rnd.choice(["80", t]), t), "root": t if "/" not in t and t not in (".", "..") else "r"})
    for t in ("port=1,port=2", "port=1,", "port", "port=,host=", "host=a,x", "threads=2,host=::1,port=0", "Port=1", "port=1=2", "=,host=b"):
        specs.append({"rule": "runserver:" + t})
    for rc in (1, 2, 3, 7, 99):
        specs.append({"rule": "runserver", "rc": rc})
    return specs


def C16():
    chk = Check("C16", "model_checking")
    chk.model_check("MCShell", "MCShell%d.cfg" % (4 if QUICK else 5), minimum=100000, timeout=900)
    specs = hostile_sites(chk.rng)
    with Scratch() as d:
        cov = execute(chk, specs, d)
        ss = serve_specs(chk.rng)
        for i, s in enumerate(ss):
            s["id"] = i
        progs = build("plain")
        t = time.time()
        count = itertools.count()
        cases = pmap(lambda s: serve_case(progs, d, next(count), s), ss, 32)
        log("  %d servers run, %.1fs" % (len(cases), time.time() - t))
        chk.conform("TraceServe", cases, lambda c: serve_case(progs, d, next(count), ss[c["id"]]),
                    lambda c, e: "rule %r: %r %r, %d runs, status %d; expected %r %r, status %d" % (
                        show(c["rule"]), [(show(a), show(b)) for a, b in c["opts"]], [show(x) for x in c["rest"]], c["runs"], c["status"],
                        [(show(a), show(b)) for a, b in e["opts"]], [show(x) for x in e["rest"]], c["rc"]))
    return chk.finish(exhaustive=False, bound="all texts of up to %d of 18 characters with a meaning for the shell are one word after quoting (TLC); all texts of up to 2 of %d, "
                      "samples of longer ones and %d hostile ones in every position" % (4 if QUICK else 5, len(SHELL), len(HOSTILE)), servers=len(cases), **cov)


# --------------------------------------------------------------------------- C15

import hashlib, random, signal, threading


class State:
    """The inputs of a site, which are edited one after the other."""

    def __init__(self, rnd):
        self.rnd, self.n = rnd, 0
        self.st = {"posts_per_page": rnd.choice(["1", "2", "10"]), "atom_posts_per_page": rnd.choice(["2", "10"])}
        if rnd.random() < 0.5:
            self.st["listing_entry"] = "e"
        if rnd.random() < 0.3:
            self.st["atom_template"] = "atom.tmpl"
        if rnd.random() < 0.3:
            self.st["html_ext"] = ".html"
        self.title = "t0"
        self.posts = [("p%d" % i, self.vars(i)) for i in range(3)]
        self.text = {"p%d" % i: "text" for i in range(3)}
        self.pages, self.tags = ["about"], ["x", "y"]
        self.copied = {"d/a": b"1", "d/e/b": b"2", "f.css": b"body"}
        self.bad = {}           # path: what is there instead (None: nothing)
        self.left = {}          # files of posts which are no longer listed
        self.only = {}          # path: content of templates, pages
        for p in ("templates/main.tmpl", "templates/atom.tmpl", "content/e.txt", "content/about.txt"):
            self.only[p] = 0

    def vars(self, i):
        return [("TITLE", "t%d.%d" % (i, self.n)), ("DATE", "20%02d-0%d-1%d" % (self.rnd.randint(10, 20), self.rnd.randint(1, 9), i % 10)), ("TAGS", self.rnd.choice(["x", "y", "x y", "z", ""]))]

    def cfg(self):
        s = site(self.st, self.posts, pages=self.pages, tags=self.tags, copy=["d", "f.css"])["cfg"]
        return s.replace(b"site_title", self.title.encode())

    def post(self, slug, v):
        return "".join("%s: %s\n" % kv for kv in v if kv[1]).encode() + b"-----\n" + self.text[slug].encode() + b"\n"

    def good(self):
        f = {"blogcfile": self.cfg(), **self.left}
        for slug, v in self.posts:
            f["content/post/%s.txt" % slug] = self.post(slug, v)
        f.update(self.copied)
        for p, n in self.only.items():
            f[p] = (b"TITLE: e\n-----\nversion %d\n" if p.endswith(".txt") else b"{% block listing_once %}" + b"O {{ SITE_TITLE }} {{ FILTER_TAG }}{% endblock %}"
                    b"{% block listing_entry %}{{ CONTENT }}{% endblock %}{% block listing %}L {{ TITLE }} {{ DATE }} {{ CURRENT_PAGE }}/{{ LAST_PAGE }};{% endblock %}{% block entry %}{{ TITLE }} {{ CONTENT }}{% endblock %}version %d\n") % n \
                if p.endswith(".txt") else (b"{% block listing_once %}O {{ SITE_TITLE }} {{ FILTER_TAG }}{% endblock %}{% block listing_entry %}{{ CONTENT }}{% endblock %}"
                                            b"{% block listing %}L {{ TITLE }} {{ DATE }} {{ CURRENT_PAGE }}/{{ LAST_PAGE }};{% endblock %}{% block entry %}{{ TITLE }} {{ CONTENT }}{% endblock %}version " + b"%d" % n + b"\n")
        return f

    def files(self):
        f = self.good()
        for p, t in self.bad.items():
            f.pop(p, None)
            if t is not None:
                f[p] = t
        return f

    def edit(self, what, ok=True, how=None):
        """A change, as a list of paths in the order in which they are written."""
        self.n += 1
        r = self.rnd
        if what == "post":
            i = r.randrange(len(self.posts))
            slug = self.posts[i][0]
            p = "content/post/%s.txt" % slug
            self.posts = self.posts[:i] + [(slug, self.vars(i))] + self.posts[i + 1:]
            self.text[slug] = "text %d" % self.n
        elif what == "cfg":
            p = "blogcfile"
            how = how or r.choice(["title", "title", "pages", "add", "drop", "tags", "ext", "entry"])
            if how == "pages":
                self.st["posts_per_page"] = {"1": "2", "2": "10", "10": "1"}[self.st["posts_per_page"]]
            elif how == "add":
                slug = "n%d" % self.n
                self.posts = [(slug, self.vars(self.n))] + self.posts
                self.text[slug] = "new"
                ps = ["content/post/%s.txt" % slug, p]
                self.bad = {k: v for k, v in self.bad.items() if k not in ps}
                if not ok:
                    self.bad[p] = b"[global\n"
                return ps if r.random() < 0.7 else ps[::-1]
            elif how == "drop" and len(self.posts) > 1:
                slug, v = self.posts[-1]
                self.left["content/post/%s.txt" % slug] = self.post(slug, v)
                self.posts = self.posts[:-1]
            elif how == "tags":
                self.tags = r.choice([["x"], ["x", "y", "z"], ["z"], None])
            elif how == "ext":
                self.st["html_ext"] = "." + r.choice("hkl")
            elif how == "entry":
                if "listing_entry" in self.st:
                    del self.st["listing_entry"]
                else:
                    self.st["listing_entry"] = "e"
            self.title = "t%d" % self.n
        elif what == "copied":
            p = r.choice(sorted(self.copied)) if r.random() < 0.5 else "d/new%d" % self.n if r.random() < 0.5 else "d/e/g/n%d" % self.n
            if not ok:
                p = "f.css"
            self.copied[p] = b"%d" % self.n
        else:
            p = {"template": "templates/main.tmpl", "atom": "templates/atom.tmpl", "entry": "content/e.txt", "page": "content/about.txt"}[what]
            self.only[p] = self.n
        if ok:
            self.bad.pop(p, None)
        else:
            self.bad[p] = None if r.random() < 0.25 or what == "copied" else r.choice([b"[global\n", b"[global]\nX = \n", b"\xff\xfe\xfd[", b""]) if p == "blogcfile" else b"{% block entry %}" if p.endswith(".tmpl") else r.choice([b"broken", b"\xffA: b\n-----\n"])
        return [p]

    def repair(self):
        """Everything that is broken, in any order."""
        rv = sorted(self.bad)
        self.rnd.shuffle(rv)
        return rv


TARGETS = {"cfg": ["cfg"], "a": ["post", "post", "page", "entry"], "b": ["template", "template", "atom", "copied", "post"]}


def points(rnd, what, h):
    """Where an edit of the model happens."""
    pc = h["pc"]
    if pc == "idle" or pc == "look" or what == "copied" and pc in ("read", "stat"):
        return ("nap", h["wait"] + 1)
    if pc == "read":
        return ("open:blogcfile", 1)
    if pc == "stat":
        return (rnd.choice(["stat:blogcfile", "stat:main.tmpl", "stat:p1.txt", "stat:about.txt", "stat:p0.txt"]), rnd.choice([1, 1, 2]))
    if pc == "build":
        return (rnd.choice(["child", "done"]), rnd.choice([1, 2, 3, h["k"] * 4, rnd.randint(1, 20)]))
    return ("child", rnd.choice([1, h["k"], h["k"] * 3, rnd.randint(1, 20)]))


class Watches:
    def __init__(self, top):
        self.top, self.n = top, 0
        self.lock = threading.Lock()
        os.chmod(top, 0o755)
        self.progs = {}
        for n in ("blogc", "blogc-make"):
            self.progs[n] = os.path.join(top, n)
            shutil.copy(build("plain")[n], self.progs[n])
            os.chmod(self.progs[n], 0o755)
        self.shim = os.path.join(top, "watch.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.shim, os.path.join(ROOT, "harness", "watch.c"), "-ldl"], check=True)
        first = 40000 + (os.getpid() * 16) % 20000
        self.uids = list(range(first, first + 16))

    def case(self, spec):
        with self.lock:
            self.n += 1
            home = os.path.join(self.top, "w%d" % self.n)
            uid = self.uids.pop()
        try:
            return self._case(spec, home, uid)
        finally:
            shutil.rmtree(home, ignore_errors=True)
            for t in self.temps(uid):
                os.unlink(t)
            with self.lock:
                self.uids.append(uid)

    def temps(self, uid):
        rv = []
        for n in os.listdir("/tmp"):
            if n.startswith("blogc-make_"):
                try:
                    if os.lstat("/tmp/" + n).st_uid == uid and os.geteuid() == 0:
                        rv.append("/tmp/" + n)
                except OSError:
                    pass
        return rv

    def _case(self, spec, home, uid):
        root = os.path.join(home, "r")
        stage = os.path.join(home, "stage")
        os.makedirs(stage)
        for p, t in spec["start"].items():
            write(os.path.join(root, p), t, PAST)
        script = []
        dirs = {os.path.dirname(p) for fs in [spec["start"]] + [{e[3]: 0} for e in spec["edits"]] for p in fs}
        for d in dirs:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for i, (event, count, op, path, text) in enumerate(spec["edits"]):
            f = os.path.join(stage, str(i))
            if op in ("write", "move"):
                with open(f, "wb") as o:
                    o.write(text)
            script.append("%s %d %s %s %s\n" % (event, count, op, f, os.path.join(root, path) if path else "-"))
        s, done, log = (os.path.join(home, x) for x in ("script", "done", "log"))
        with open(s, "w") as f:
            f.write("".join(script))
        if os.geteuid() == 0:
            for d, ds, fs in os.walk(home):
                for x in [d] + [os.path.join(d, f) for f in ds + fs]:
                    os.lchown(x, uid, NOBODY)
        user = dict(user=uid, group=NOBODY, extra_groups=[]) if os.geteuid() == 0 else {}
        env = dict(BASE_ENV, BLOGC=self.progs["blogc"], WATCH_SCRIPT=s, WATCH_DONE=done, WATCH_LOG=log, WATCH_NAPS="4", LD_PRELOAD=self.shim)
        err = os.path.join(home, "err")
        with open(err, "wb") as e:
            p = subprocess.Popen([self.progs["blogc-make"], "watch"], cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e, **user)
            end = time.time() + 90
            while time.time() < end and p.poll() is None and not os.path.exists(done):
                time.sleep(0.01)
            alive = p.poll() is None and os.path.exists(done)
            temps = len(self.temps(uid))
            p.send_signal(signal.SIGINT)
            try:
                p.wait(10)
                ended = p.returncode != 0
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                ended = False
        # a build of the final state
        f = os.path.join(home, "fresh")
        r = subprocess.run([self.progs["blogc-make"]], cwd=root, env=dict(BASE_ENV, BLOGC=self.progs["blogc"], OUTPUT_DIR=f), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, **user)

        def tree(d, skip=None):
            fs, _ = snapshot(d)
            B = os.fsencode(d) + b"/"
            return [[bl(p[len(B):]), content(t)] for p, (t, _) in sorted(fs.items()) if not p[len(B):].startswith(b"_build/")]
        log = open(log).read() if os.path.exists(log) else ""
        with open(err, "rb") as e:
            text = e.read()
        rt = bl(root)
        return {"id": spec["id"], "cfg": bl(spec["final"].get("blogcfile", b"\xff")), "root": rt, "files": [[rt + [47] + bl(p), [[bl(k), bl(v)] for k, v in vs]] for p, vs in spec["vars"]],
                "copies": [[bl("d"), [bl(p) for p in sorted(spec["final"]) if p.startswith("d/")]]], "built": r.returncode == 0, "fresh": tree(f) if r.returncode == 0 else [], "tree": tree(os.path.join(root, "_build")),
                "inputs": tree(root), "wanted": [[bl(p), content(t)] for p, t in sorted(spec["final"].items())],
                "alive": alive, "ended": ended, "temps": temps, "log": log[-3000:], "stderr": text[-600:].decode("utf-8", "replace"), "rc": p.returncode}


def c15_describe(specs):
    def f(c, e):
        a, b = ({show(p): show(t) for p, t in c[k]} for k in ("fresh", "tree"))
        return "edits %s\nwatcher %s (%s), a build of the final state %s, %d temporary files; differences (wanted, is): %s; inputs %s\noutputs of the specification: %s\nevents: %s\n%s" % (
            [(x[0], x[1], x[2], x[3], (x[4] or b"")[-60:]) for x in specs[c["id"]]["edits"]], "was there" if c["alive"] else "was gone or stuck", c["rc"], "succeeds" if c["built"] else "fails", c["temps"],
            [(k, a[k][:60], b.get(k, "-")[:60]) for k in sorted(a) if a[k] != b.get(k)][:6], "as written" if sorted(c["inputs"]) == sorted(c["wanted"]) else "differ",
            sorted(show(x) for x in e["outs"]) if e["ok"] and {"_build/" + k for k in a} != {show(x) for x in e["outs"]} else "the same", " ".join(c["log"].split("\n"))[-700:], c["stderr"])
    return f


def watch_spec(rnd, plan):
    """plan: [(event, count, what, ok, how)], or what = None to wait"""
    if plan[0][0].split(":")[0] in ("stat", "open") and any(x[2] == "cfg" and not x[3] for x in plan):
        # (there is no watcher before the settings were read once)
        plan = [("nap", 1, None, True, None)] + plan
    s = State(rnd)
    spec = {"start": s.files(), "edits": []}
    if rnd.random() < 0.1:
        # broken from the start (but the settings)
        s.edit(rnd.choice(["post", "template", "page", "copied"]), False)
        spec["start"] = s.files()

    def put(event, count, ps):
        f = s.files()
        for i, p in enumerate(ps):
            e, n = (event, count) if i == 0 else (event, 0) if rnd.random() < 0.5 else (rnd.choice(["nap", "child"]), rnd.choice([1, 2]))
            spec["edits"].append((e, n, rnd.choice(["write", "move"]) if p in f else "gone", p, f.get(p)))
    for event, count, what, ok, how in plan:
        if what is None:
            spec["edits"].append((event, count, "none", "", None))
        else:
            put(event, count, s.edit(what, ok, how))
    if s.bad and rnd.random() < 0.9:
        for p in s.repair():
            s.bad.pop(p)
            put(rnd.choice(["nap", "nap", "child"]), rnd.choice([1, 2]), [p])
    spec["final"] = s.files()
    spec["vars"] = [("content/post/%s.txt" % slug, [("FILENAME", slug)] + [kv for kv in v if kv[1]]) for slug, v in s.posts]
    return spec


def C15():
    chk = Check("C15", "model_checking")
    rnd = chk.rng
    r = chk.model_check("MCWatch", "MCWatch2.cfg", minimum=100000)
    chk.model_check("MCWatch", "MCWatchLive.cfg", minimum=100000)
    # what the specification has to exclude
    chk.model_check("MCWatch", "MCWatchNoForce.cfg", expect_ok=False)
    chk.model_check("MCWatch", "MCWatchLate.cfg", expect_ok=False)
    if not QUICK:
        chk.model_check("MCWatch", "MCWatch3.cfg", minimum=1000000, timeout=1500)
    plans = []
    # one edit of each kind at every moment
    whats = [("post", None), ("page", None), ("template", None), ("atom", None), ("entry", None), ("copied", None)] + [("cfg", h) for h in ("title", "pages", "add", "drop", "tags", "ext", "entry")]
    for what, how in whats:
        for ok in (True, False):
            evs = [("nap", 1), ("nap", 2)] + [("child", k) for k in (1, 2, 5, 9, 14, 25)] + [("done", k) for k in (1, 3, 7, 12, 20)]
            if what != "copied":
                evs += [("stat:*", k) for k in (1, 2, 4, 8, 16, 30)] + [("stat:blogcfile", 1), ("stat:blogcfile", 2)]
            if QUICK:
                evs = evs[:1] + rnd.sample(evs[1:], 6)
            for ev in evs:
                plans.append([ev + (what, ok, how)])
    # the settings, at every moment of a pass that is caused by something else
    for first in ("template", "post", "cfg"):
        for k in range(1, 24, 1 if not QUICK else 3):
            plans.append([("nap", 1, first, True, None), ("child", k, "cfg", True, None)])
            plans.append([("nap", 1, first, True, None), ("child", k, "cfg", False, None), (rnd.choice(["nap", "child"]), 1, "cfg", True, None)])
    # while they are read
    for k in (1, 2, 3, 4):
        for n in (0, 1):
            pre = [("nap", 1, "cfg", True, None)] if n else []
            plans.append(pre + [("open:blogcfile", 1, None, True, None), ("stat:*", k, "cfg", True, None)])
            plans.append(pre + [("open:blogcfile", 1, "cfg", True, None)])
            plans.append(pre + [("stat:blogcfile", k, "cfg", True, None)])
    # the edits of the model
    hists = sorted(json.dumps(c["hist"]) for c in r.printed("CASE"))
    kinds = {}
    for h in hists:
        kinds.setdefault(tuple((x["f"], x["ok"], x["pc"]) for x in json.loads(h)), []).append(h)
    pick = [rnd.choice(v) for _, v in sorted(kinds.items())]
    if QUICK:
        pick = rnd.sample(pick, min(130, len(pick)))
    for h in pick:
        plan = []
        for x in json.loads(h):
            what = rnd.choice(TARGETS[x["f"]])
            plan.append(points(rnd, what, x) + (what, x["ok"], None))
        plans.append(plan)
    # long histories
    for i in range(60 if QUICK else 1200):
        plan = []
        for j in range(rnd.randint(3, 8)):
            what = rnd.choice(["post", "post", "template", "cfg", "cfg", "copied", "page", "atom", "entry"])
            plan.append((rnd.choice(["nap", "nap", "child", "done"]), rnd.choice([1, 1, 2, 3, 8])) + (what, rnd.random() < 0.7, None))
        plans.append(plan)
    specs = []
    for i, p in enumerate(plans):
        specs.append(dict(watch_spec(random.Random(rnd.random()), p), id=i))
    with Scratch() as top:
        W = Watches(top)
        t = time.time()
        cases = pmap(W.case, specs)
        log("  %d watchers, %.1fs" % (len(specs), time.time() - t))
        slim = [{k: v for k, v in c.items() if k not in ("log", "stderr")} for c in cases]
        keep = {c["id"]: c for c in cases}

        def again(c):
            keep[c["id"]] = W.case(specs[c["id"]])
            return keep[c["id"]]
        chk.conform("TraceWatch", slim, again, lambda c, e: c15_describe(specs)(keep[c["id"]], e))
        for s in specs[:1] + specs[-2:]:
            chk.sample({"edits": [(e[0], e[1], e[2], e[3]) for e in s["edits"]]})
    late = sum(c["log"].count("late ") for c in cases)
    chk.assumptions += ["no input changes while the program that compiles it runs, and every edit has a time of its own", "naps of the watcher are cut short"]
    return chk.finish(watchers=len(specs), edits=sum(len(s["edits"]) for s in specs), edits_late=late, final_states_that_build=sum(c["built"] for c in cases),
                      bound="all edits of 3 inputs at all moments of a watcher, up to %d edits (TLC)" % (2 if QUICK else 3))
