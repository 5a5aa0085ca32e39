"""C05 listing selection, C24 dates."""
from vp import *
from tmplgen import *

EXPORTS = ["DATE_FIRST", "DATE_LAST", "FILENAME_FIRST", "FILENAME_LAST", "CURRENT_PAGE", "PREVIOUS_PAGE", "NEXT_PAGE",
           "FIRST_PAGE", "LAST_PAGE"]
SHOW = "".join("%s:{%% ifdef %s %%}{{ %s }}{%% else %%}?{%% endif %%};" % (n, n, n) for n in EXPORTS)
LTMPL = (SHOW + "{% block listing_once %}once " + SHOW + "{% endblock %}{% block listing_empty %}empty{% endblock %}"
         "{% block listing %}[{{ FILENAME }}|{{ DATE }}|{{ TAGS }}]{% endblock %}"
         "{% block entry %}<{{ FILENAME }}|{{ DATE }}>{% endblock %}").encode()

TAGS = ["", "x", "x y", "xy", "y  x", "X", "x,y", " x ", "yx xy", "x\tz", "zz x x"]


def valid_date(r):
    y = r.choice([1900, 1901, 1969, 1970, 1971, 1999, 2000, 2001, 2015, 2016, 2037, 2038, 2039, 2100, 2200, 9999, r.randrange(1900, 9999)])
    s = "%04d-%02d-%02d" % (y, r.randrange(1, 13), r.randrange(1, 32))
    k = r.choice([0, 0, 1, 2, 3, 3])
    if k > 0:
        s += " %02d" % r.randrange(24)
    if k > 1:
        s += ":%02d" % r.randrange(60)
    if k > 2:
        s += ":%02d" % r.randrange(61)
    return s


def near_dates(r):
    """Dates that differ in one field only, or denote the same instant."""
    f = [r.choice([1969, 1970, 1999, 2000, 2016, 2038]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)]
    if r.random() < 0.3:
        f[3:] = [0, 0, 0]
    rv = []
    for _ in range(r.choice([2, 3, 6])):
        g = list(f)
        for i in r.sample(range(6), r.choice([0, 1, 1, 1, 2])):
            g[i] = r.choice([min([9999, 12, 31, 23, 59, 60][i], f[i] + 1), max([1900, 1, 1, 0, 0, 0][i], f[i] - 1)])
        s = "%04d-%02d-%02d %02d:%02d:%02d" % tuple(g)
        rv.append(s[:19 if g[5] else r.choice([19, 16]) if g[4] else r.choice([19, 16, 13]) if g[3] else r.choice([19, 16, 13, 10])])
    return rv


def many_tags(r):
    return r.choice([" ", " ", "  "]).join(r.choice(["", "", "x"]) + "t%d" % i for i in range(r.choice([2, 5, 9, 17, 33, 65])))


def any_date(r):
    s = valid_date(r)
    x = r.random()
    if x < 0.5:
        return s
    if x < 0.6:
        return s[:r.randrange(len(s) + 1)]
    if x < 0.7:
        return s + r.choice(["x", " ", ":", "0", " UTC", "-", "é"])
    i = r.randrange(len(s))
    c = r.choice(list("0123456789 :-/TxZ.\t") + ["", "é"])
    if x < 0.9:
        return s[:i] + c + s[i + 1:]
    return s[:i] + c + s[i:]


def listing_specs(chk, n):
    r = chk.rng
    rv = []
    for _ in range(n):
        k = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 11, 20, 21, 25]) if r.random() < 0.9 else r.randrange(60)
        dated = r.random() < 0.6
        pool = [valid_date(r) for _ in range(r.choice([1, 2, 3, 30]))] if r.random() < 0.6 else near_dates(r)
        manytags = r.random() < 0.08
        srcs = []
        for i in range(k):
            e = []
            if dated:
                e.append(("DATE", r.choice(pool)))
            if r.random() < 0.7:
                e.append(("TAGS", many_tags(r) if manytags else r.choice(TAGS)))
            srcs.append(e)
        if k and r.random() < 0.12:
            i = r.randrange(k)
            if r.random() < 0.5:
                srcs[i] = [x for x in srcs[i] if x[0] != "DATE"]
            else:
                srcs[i] = [x for x in srcs[i] if x[0] != "DATE"] + [("DATE", any_date(r))]
        g = []
        if manytags:
            g.append(("FILTER_TAG", r.choice(["", "", "x"]) + "t%d" % r.randrange(r.choice([2, 5, 9, 17, 33, 65]))))
        elif r.random() < 0.5:
            g.append(("FILTER_TAG", r.choice(["x", "y", "X", "xy", "zz", "", " x", "x y"])))
        if r.random() < 0.6:
            g.append(("FILTER_REVERSE", r.choice(["1", "yes", "Y", "TRUE", "On", "0", "no", "false", "", "2", "yes "])))
        if r.random() < (0.7 if dated else 0.05):
            g.append(("FILTER_SORT", r.choice(["1", "yes", "Y", "TRUE", "On", "0", "no", ""])))
        if r.random() < 0.65:
            g.append(("FILTER_PAGE", r.choice(["1", "1", "2", "3", "4", "5", "0", "-1", "", "x", "2x", " 3", "+2", "99", "1000000"])))
        if r.random() < 0.65:
            g.append(("FILTER_PER_PAGE", r.choice(["1", "2", "3", "4", "5", "7", "10", "20", "0", "-3", "", "x", "3x", "999"])))
        r.shuffle(g)
        if r.random() < 0.05:
            g.append(("DATE_FIRST", "global"))
        listing = r.random() < 0.93 or k != 1
        rv.append({"tmpl": LTMPL, "ctx": {"listing": listing, "global": g, "sources": srcs, "entries": []}})
    return rv


def execute(chk, specs, d, variant):
    rn = Runner(build(variant)["blogc"], d)
    for i, s in enumerate(specs):
        s["id"] = i
        s.setdefault("mode", "file" if i % 4 == 0 else "stdout")
        for j, e in enumerate(s["ctx"]["sources"]):
            rn.source(e, "f%d" % j)
    cases = pmap(rn.run, specs)
    byid = {s["id"]: s for s in specs}
    chk.conform("TraceTemplate", cases, lambda c: rn.run(byid[c["id"]]), describe)
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        chk.sample({"global": {show(k): show(v) for k, v in c["global"]}, "sources": len(c["sources"]), "accepted": c["ok"],
                    "page": show(c["out"])[:300]})
    return {"executions": len(cases), "accepted": sum(1 for c in cases if c["ok"]),
            "rejected": sum(1 for c in cases if not c["ok"])}


def C05():
    chk = Check("C05", "model_checking")
    r = chk.model_check("MCLoader", "MCLoader2.cfg", minimum=20000)
    specs = []
    for c in r.printed("CASE"):
        env = lambda x: [(show(k), show(v)) for k, v in x if show(k) != "FILENAME"]
        specs.append({"tmpl": LTMPL, "ctx": {"listing": True, "global": env(c["g"]), "sources": [env(s) for s in c["ss"]], "entries": []}})
    if QUICK:
        specs = chk.rng.sample(specs, 2500)
    chk.model_check("MCLoader", "MCLoader3.cfg", minimum=500000)
    with Scratch() as d:
        cov = execute(chk, specs, d, "plain")
        cov2 = execute(chk, listing_specs(chk, 2200 if QUICK else 40000), d, "asan")
    return chk.finish(exhaustive=False, from_the_model=cov, random_with_address_sanitizer=cov2,
                      bound="model: up to 3 sources, all settings, all pages; replayed: up to 2 (thorough: all, quick: 2500 of 23040)")


FORMATS = ["%Y-%m-%d %H:%M:%S", "%a, %d %b %Y %T GMT", "%A %B %j %y %%", "%F|%T", "%I:%M %p", "%b %d, %Y, %I:%M %p GMT", "%%Y%Y", "no conversion", "%d", " %H ", "é%Mé",
           "%Y" * 255 + "abc", "%Y" * 255 + "abcd", "%Y" * 256]


def date_specs(chk, n):
    r = chk.rng
    todo = []
    # every single character edit of three dates, every truncation
    edits = []
    for base in ("2016-02-29 13:45:59", "1999-12-31", "2100-10-09 20:05"):
        for i in range(len(base) + 1):
            edits.append(base[:i])
            for c in "0123456789-: x":
                edits.append(base[:i] + c + base[i + 1:])
                edits.append(base[:i] + c + base[i:])
            edits.append(base[:i] + base[i + 1:])
    # every value of every field
    fields = []
    for y in list(range(1890, 1910)) + list(range(1960, 2060)) + [0, 1, 999, 2400, 9999]:
        fields.append("%04d-03-01" % y)
    for m in range(100):
        fields.append("2015-%02d-15" % m)
        fields.append("2015-10-%02d" % m)
        fields.append("2015-10-15 %02d" % m)
        fields.append("2015-10-15 10:%02d" % m)
        fields.append("2015-10-15 10:11:%02d" % m)
        fields.append("2015-10-15 23:59:%02d" % m)
    for y in (1900, 1999, 2000, 2016, 2100):
        for m in range(1, 13):
            for dd in (28, 29, 30, 31):
                fields.append("%04d-%02d-%02d 23:59:60" % (y, m, dd))
    allof = sorted(set(edits)) + fields
    allof = [x for x in allof]
    for i in range(0, len(allof), 40):
        todo.append((FORMATS[0], allof[i:i + 40]))
        todo.append((FORMATS[(i // 40) % len(FORMATS)], allof[i:i + 40]))
    for _ in range(n):
        f = r.choice(FORMATS)
        if r.random() < 0.6:
            f = "".join(r.choice(["%Y", "%m", "%d", "%H", "%M", "%S", "%y", "%j", "%a", "%A", "%b", "%B", "%F", "%T", "%I", "%p", "%%", " ", "-", "x", "é"])
                        for _ in range(r.randrange(1, 9)))
        todo.append((f, [any_date(r) for _ in range(r.choice([1, 3, 20]))]))
    return todo


def C24():
    chk = Check("C24", "model_checking")
    for k in ("1970", "1900"):
        chk.model_check("MCDates", "MCDates%s.cfg" % k, minimum=20000)
    blogc = build("asan")["blogc"]
    todo = date_specs(chk, 700 if QUICK else 12000)
    ok = lambda x: x == strip(x) and x != ""

    def one(i):
        fmt, dates = todo[i]
        argv = [blogc, "-D", "DATE_FORMAT=" + fmt, "-t", tmpls[len(dates)]]
        with tempfile.NamedTemporaryFile(dir=d, suffix=".txt") as f:
            text = "DATE_NOTHING: 1\n"
            for k, x in enumerate(dates):
                if ok(x) and (i + k) % 2:
                    text += "DATE_K%dX: %s\n" % (k, x)
                else:
                    argv += ["-D", "DATE_K%dX=%s" % (k, x)]
            f.write((text + "---\n").encode())
            f.flush()
            r = run(argv + [f.name])
        return {"id": i, "format": bl(fmt), "dates": [bl(x) for x in dates], "rc": r.rc,
                "shown": [bl(x) for x in r.out.split(b"\1")[:-1]], "warnings": r.err.count(b"warning: datetime:")}
    with Scratch() as d:
        tmpls = {}
        for n in sorted({len(t[1]) for t in todo}):
            tmpls[n] = os.path.join(d, "t%d" % n)
            with open(tmpls[n], "w") as f:
                f.write("{% block entry %}" + "".join("{{ DATE_K%dX_FORMATTED }}\1" % k for k in range(n)) + "{% endblock %}")
        cases = pmap(one, range(len(todo)))
        chk.conform("TraceDates", cases, lambda c: one(c["id"]), lambda c, e: "format %r: %s" % (
            show(c["format"]), "; ".join("%r shown as %r, expected %r" % (show(x), show(y), show(z)) for x, y, z in
                                         zip(c["dates"], c["shown"] + [[]] * 99, e["shown"]) if y != z)
            or "status %d, %d warnings, expected %d" % (c["rc"], c["warnings"], e["warnings"])))
        # dates that are sorted: validity and order
        r = chk.rng
        specs = []
        for _ in range(1800 if QUICK else 30000):
            pool = [valid_date(r) for _ in range(r.choice([2, 4]))] if r.random() < 0.4 else near_dates(r)
            k = r.choice([1, 2, 2, 3, 5])
            srcs = [[("DATE", r.choice(pool) if r.random() < 0.5 else valid_date(r))] for _ in range(k)]
            if r.random() < 0.35:
                x = any_date(r)
                srcs[r.randrange(k)] = [("DATE", x)] if r.random() < 0.9 else []
            g = [("FILTER_SORT", "1")] + ([("FILTER_REVERSE", "1")] if r.random() < 0.5 else [])
            specs.append({"tmpl": LTMPL, "ctx": {"listing": True, "global": g, "sources": srcs, "entries": []}})
        cov = execute(chk, specs, d, "plain")
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        chk.sample({"format": show(c["format"]), "dates": [show(x) for x in c["dates"][:3]], "shown": [show(x) for x in c["shown"][:3]]})
    chk.assumptions.append("TZ=UTC and the C locale; conversions %Y %m %d %H %M %S %y %j %a %A %b %B %F %T %I %p %%")
    return chk.finish(exhaustive=False, formatted_dates=sum(len(t[1]) for t in todo), executions=len(cases), sorting=cov)
