"""C10 settings files."""
import itertools
from vp import *
from sitelib import *

REQ = ["AUTHOR_NAME", "AUTHOR_EMAIL", "SITE_TITLE", "SITE_TAGLINE", "BASE_DOMAIN"]
GLOBAL = "[global]\n" + "".join("%s = %s\n" % (k, k.lower()) for k in REQ)
SETTINGS = {"content_dir": ["src", "a b", "/abs/c", "x/y"], "template_dir": ["t", "/abs t", "ñ"], "atom_template": ["atom.tmpl"],
            "main_template": ["m.html", "a/b.tmpl", "x y"], "source_ext": [".md", "", ".t.x"], "listing_entry": ["e", "x/y", ""],
            "posts_sort": ["1", "true", "TRUE", "Yes", "on", "y", "0", "false", "no", "", "2", "tru", "truee"], "pagination_prefix": ["p", "", "a/b"],
            "posts_per_page": ["1", "2", "5", "0", "-1", "", "abc", " 7", "3x", "+4", "010", "-0", "11"], "atom_posts_per_page": ["0", "3", "-2"],
            "html_ext": [".html", "/index.htm", ".x/y.html", "/"], "index_prefix": ["blog", "a/b", "x y"], "post_prefix": ["", "posts", "a/b"],
            "tag_prefix": ["", "t"], "html_order": ["ASC", "asc", "Asc", "DESC", "desc", "", "ascending", "as"], "blog_prefix": ["", "blog", "b/c"],
            "atom_prefix": ["", "feed"], "atom_ext": ["", ".atom", "/atom.xml"], "atom_order": ["ASC", ""], "date_format": ["%Y", "", "100%", "a 'b' \\\"c"],
            "locale": ["pt_BR.utf8", "de DE", ""], "run_from_make": ["0", "1", "yes", "no", "off"], "atom_legacy_entry_id": ["1", ""]}
FILES = {"f.css": b"body", "d/a": b"1", "d/e/b": b"2", "d/e/f/c": b"", "g h": b"3", "ë": b"4", "index.html": b"5", "#x": b"6"}
COPIES = [["d", ["d/a", "d/e/b", "d/e/f/c"]], ["d/e", ["d/e/b", "d/e/f/c"]], ["d/e/f", ["d/e/f/c"]], ["empty", []]]


LINES = ["[posts]", "[tags]", "[settings]", "[global]", "[x]", "K = v", "html_ext = .h", "html_ext=\"/x y\" ", "a", " b c ", "\"q \\\" \\\\ w\"", "# c", "; c = d", "",
         " \t", "K", "=", "K = \\ x\\\\", "K = \"a", "b\"", "K = v # w", "[tags] z", "K=\"v\" x", "[", "[]", "[a]]", "[posts", "\"\"", "\"x\"y", "\\"]
BASES = ["[global]\nAUTHOR_NAME = A\nAUTHOR_EMAIL=e@x\nSITE_TITLE = \"T \"\nSITE_TAGLINE = t t\nBASE_DOMAIN = http://d\n[posts]\np\n[tags]\nt\n",
         "# c\n[environment]\nAUTHOR_NAME=\"A\"\nAUTHOR_EMAIL=e\nSITE_TITLE=s\nSITE_TAGLINE=t\nBASE_DOMAIN=d\nK_1 = \n\n[settings]\nhtml_ext = .html\n\tlocale=xx\n[posts]\n\n a b\n\"c \"\n;d\n[pages]\nx\n"]


# every character in every kind of place (@)
PLACES = ["[@posts]", "[posts@]", "[posts]@", "@[posts]", "K@ = v", "@K = v", "K =@ v", "K = v@", "K = v@w", "K = \"v\"@", "K = \"v@\"", "K = @\"v\"", "K = \\@", "K = \"\\@\"", "#@",
          "@", "[tags]\n@a", "[tags]\na@", "[tags]\na@b", "[tags]\n\"a\"@", "[tags]\n\"a@\"", "[tags]\n@\"a\"", "[tags]\n\\@a", "[tags]\na\\@", "[tags]\n\"\\@\"", "[tags]\n#@\nb"]


def embed(text, way):
    """A text over the model's alphabet, in three places of a configuration."""
    if way == 0:
        return GLOBAL + "[posts]\n[tags]\n" + text.replace("l", "tags")
    if way == 1:
        return GLOBAL + "[posts]\n[settings]\n" + text.replace("l", "locale")
    return "[posts]\nx\n" + GLOBAL + text.replace("l", "L")


def rand_value(r):
    v = r.choice(["v", "a b", "é ü", "", "x=y", "a#b", ";", "[x]", "  ", "a\\\\b", "\\\"", "\"", "'", "$(x)`y`", "a\\ ", "\\ a", "\\n", "\\", "--", "{{ A }}", "%d",
                  "x" * r.choice([1, 30, 63, 64, 127, 128, 129, 255, 256, 1000])])
    if r.random() < 0.35:
        v = "\"" + v + ("\"" if r.random() < 0.95 else "")
        if r.random() < 0.1:
            v = v.replace("a", "a\nb")
    return r.choice(["", "", " ", "  ", "\t", "\f"]) + v + r.choice(["", "", "", " ", "\t ", "\v"])


def mutate_key(r, k):
    i = r.randrange(len(k))
    return r.choice([k[:i] + k[i + 1:], k + "_", k + "x", "x" + k, k.upper(), k[:i] + "_" + k[i:], k[:-1], k.replace("_", "-"), k[:i] + "é" + k[i + 1:]])


def rand_config(r):
    nl = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
    secs = []
    req = [(k, r.choice(["v", "v w", "\"q\"", "é"])) for k in REQ]
    if r.random() < 0.06:
        k = r.randrange(5)
        req[k] = (req[k][0] if r.random() < 0.6 else mutate_key(r, req[k][0]), r.choice(["", "\"\"", " ", "v", "\"  \""]))
    extra = [(r.choice(["K", "AB", "A_1", "MAKE_TAGS", "DATE_FORMAT", "FILTER_TAG", "LONG" * 20, "BASE_URL", "A", "AUTHOR_NAM", "AUTHOR_NAMES", "SITE"]), rand_value(r))
             for _ in range(r.choice([0, 1, 2, 3, 8]))]
    if r.random() < 0.03:
        extra.append((r.choice(["a", "A-B", "1A", "_A", "A B", "É", "", "Ab", "A.", "AÉ"]), "v"))
    g = req + extra
    r.shuffle(g)
    secs.append((r.choice(["global"] * 12 + ["environment"] * 3 + ["Global", " global", "globals"][:1]), ["%s%s=%s" % (k, r.choice(["", " ", "\t"]), v if v[:1] in " \t\f" else " " * r.randrange(2) + v) for k, v in g]))
    if r.random() < 0.1:
        secs.append((r.choice(["environment", "global"]), ["%s = other" % k for k in REQ] if r.random() < 0.7 else []))
    s = []
    for _ in range(r.choice([0, 1, 2, 4, 8])):
        k = r.choice(sorted(SETTINGS))
        if k in ("run_from_make", "atom_legacy_entry_id") and r.random() < 0.8:
            continue
        if r.random() < 0.15:
            k2, v = mutate_key(r, k), r.choice(SETTINGS[k])
        else:
            k2, v = k, r.choice(SETTINGS[k])
        if r.random() < 0.2:
            v = "\"" + v + "\""
        s.append("%s%s=%s%s" % (k2, r.choice(["", " "]), r.choice(["", " "]), v))
    secs.append((r.choice(["settings"] * 20 + ["setting", "settings "]), s))
    for name, items in (("posts", ["a", "b c", "d/e", "é", "\"q r\"", "x=y", "\"#h\"", "a\\ b", "post", "it's", "\"\\\"\"", "\\[x", "index", "p" * 130]),
                        ("pages", ["index", "about", "a/b", "\"x \"", "é è", "q=r", "\\;s", "index.html", "about/index"]),
                        ("tags", ["t", "u", "t u", "é", "tt", "\" s\"", "\"\""]),
                        ("copy", ["f.css", "d", "g h", "ë", "\"f.css\"", "\\#x", "empty", "d/e", "d/a"]),
                        ("copy_files", ["f.css", "d/e/f", "g h"])):
        if name == "posts" or r.random() < 0.5:
            k = r.choice([0, 1, 2, 3, 6]) if r.random() < 0.96 else r.choice([17, 40])
            its = [r.choice(items) for _ in range(k)] if name != "copy" else r.sample(items[:7], min(k, 3))
            if k > 6 and name != "copy":
                its = ["n%d" % i for i in range(k)]
            if name == "copy" and r.random() < 0.08:
                its.append("nothing")
            its = [r.choice(["", "", " ", "\t"]) + x + r.choice(["", "", " ", "\t\f"]) for x in its]
            secs.append((r.choice([name] * 15 + [mutate_key(r, name)]), its))
    r.shuffle(secs)
    if r.random() < 0.1:
        secs.append(r.choice(secs))
    out = r.choice(["", "", "\n", "# x" + nl, " \t" + nl, "\ufeff"])
    for name, lines in secs:
        out += r.choice(["", "", " ", "\t"]) + "[" + name + "]" + r.choice([nl, nl, nl, nl, " " + nl, "", " "] if lines and r.random() < 0.3 else [nl])
        for l in lines:
            out += l + nl
            if r.random() < 0.15:
                out += r.choice(["", "  ", "# " + l, "\t;" + l, "#"]) + nl
    if r.random() < 0.25:
        out = out[:-len(nl)]
    if r.random() < 0.1:
        i = r.randrange(len(out) + 1)
        out = out[:i] + r.choice(["", "\"", "\\", "[", "]", "=", "\n", "#", "\r"]) + out[i + r.choice([0, 1]):]
    b = out.encode()
    if r.random() < 0.03:
        i = r.randrange(len(b) + 1)
        b = b[:i] + r.choice([b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\x80"]) + b[i:]
    return b


def C10():
    chk = Check("C10", "model_checking")
    chk.model_check("MCConfig", "MCConfig%d.cfg" % (6 if QUICK else 7), minimum=1000000, timeout=900)
    r = chk.model_check("MCConfig", "MCConfig5.cfg", minimum=100000)
    rnd = chk.rng
    specs = []
    small = r.printed("CASE")
    if len(small) != 66430:
        raise CheckError("the model printed %d behaviours" % len(small))
    acc = [c for c in small if c["ok"]]
    small = rnd.sample(acc, 700) + rnd.sample(small, 500) if QUICK else rnd.sample(small, 20000) + rnd.sample(acc, 5000)
    for i, c in enumerate(small):
        specs.append({"cfg": embed(show(c["src"]), i % 3).encode()})
    seqs = [p for k in range(1, 4) for p in itertools.product(LINES, repeat=k)]
    for i, p in enumerate(rnd.sample(seqs, 600 if QUICK else 9000)):
        nl = ["\n", "\n", "\r\n", "\r"][i % 4]
        pre = ["[posts]\n" + GLOBAL, GLOBAL + "[posts]\n[settings]\n", GLOBAL + "[posts]\n", GLOBAL + "[posts]\n[tags]\n"][i // 4 % 4]
        specs.append({"cfg": (pre.replace("\n", nl) + nl.join(p) + ["", nl][i // 16 % 2]).encode()})
    for p in PLACES:
        for c in range(1, 128):
            if QUICK and chr(c).isalnum() and chr(c) not in "aZ0":
                continue
            for t in [p + "\n"] + [p] * (not QUICK):
                specs.append({"cfg": ("[posts]\nx\n" + GLOBAL + t.replace("@", chr(c))).encode()})
    ed = []
    for b in BASES:
        for i in range(len(b) + 1):
            ed.append(b[:i])
            ed.append(b[:i] + b[i + 1:])
            for c in "\n\r[]=\"\\#; aA_":
                ed.append(b[:i] + c + b[i:])
                ed.append(b[:i] + c + b[i + 1:])
    for t in (rnd.sample(ed, 700) if QUICK else ed):
        specs.append({"cfg": t.encode()})
    for k in sorted(SETTINGS):
        for v in SETTINGS[k]:
            extra = "atom_template=x\n" if k == "atom_legacy_entry_id" and v else ""
            specs.append({"cfg": (GLOBAL + "[settings]\n" + extra + "%s = %s\n[posts]\na\n[pages]\np\n" % (k, v)).encode(), "args": ["index", "atom", "posts", "pages"], "make": len(v) % 2 == 1})
    for n in list(range(28, 36)) + list(range(60, 68)) + list(range(120, 136)) + list(range(250, 260)) + [511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 5000]:
        specs.append({"cfg": (GLOBAL + "K = %s\nK%s = \"%s\"\n[%s]\n[posts]\n%s\n\"%s\"\n[tags]\n%s" % ("v" * n, "K" * n, "w" * n, "s" * n, "p" * n, "q" * n, "t" * n)).encode(), "args": ["index"]})
        specs.append({"cfg": ("#" + "c" * n + "\n" + GLOBAL + "".join("K%d = %d\n" % (i, i) for i in range(n % 300)) + "[posts]\n" + "".join("p%d\n" % i for i in range(n % 300))).encode(), "args": ["index"]})
    for i in range(1800 if QUICK else 25000):
        s = {"cfg": rand_config(rnd), "make": rnd.random() < 0.5, "dev": rnd.random() < 0.1, "files": FILES, "dirs": ["empty"], "copies": COPIES}
        if rnd.random() < 0.3:
            s["args"] = ["posts", "index", "pages", "copy", "atom"]
        specs.append(s)
    for s in specs:
        s.setdefault("args", ["index", "pages", "copy"])
    with Scratch() as d:
        cov = execute(chk, specs, d, "asan")
    return chk.finish(exhaustive=False, bound="all texts of up to %d of 9 characters (TLC), those of up to 5 in three places of a settings file, sequences of up to 3 of %d lines, "
                      "every character in %d places, single-character edits of two files, every setting, boundary lengths, random files" % (6 if QUICK else 7, len(LINES), len(PLACES)), **cov)
