"""C01 rendering, C02 acceptance, C03 whitespace cleaners, C04 variables."""
from vp import *
from tmplgen import *


def execute(chk, specs, scratch, variant="asan"):
    rn = Runner(build(variant)["blogc"], scratch)
    for i, s in enumerate(specs):
        s["id"] = i
        s.setdefault("mode", "file" if i % 3 == 0 else "stdout")
        if s["mode"] == "file" and i % 2 == 0:
            s.setdefault("before", b"what was there before\n")
    # sources are shared between runs: write them first
    for s in specs:
        for i, e in enumerate(s["ctx"]["sources"]):
            rn.source(e, "f%d" % i)
        for i, e in enumerate(s["ctx"]["entries"]):
            if e is not None:
                rn.source(e, "e%d" % i)
    cases = pmap(rn.run, specs)
    byid = {s["id"]: s for s in specs}
    chk.conform("TraceTemplate", cases, lambda c: rn.run(byid[c["id"]]), describe)
    acc = sum(1 for c in cases if c["ok"])
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        chk.sample({"template": show(c["tmpl"]), "listing": c["listing"], "accepted": c["ok"], "page": show(c["out"])})
    return {"executions": len(cases), "accepted_templates": acc, "rejected_templates": len(cases) - acc,
            "distinct_templates": len({bytes(c["tmpl"]) for c in cases}),
            "distinct_pages": len({bytes(c["out"]) for c in cases})}


CTXS = None


def small_contexts():
    S1 = [("A", "a"), ("TITLE", "foo bar"), ("TAGS", "x a")]
    S2 = [("A", "b"), ("LST", "q")]
    return [{"listing": False, "global": [("LST", "x y"), ("B", "b")], "sources": [S1], "entries": []},
            {"listing": True, "global": [("LST", "x y"), ("B", "b")], "sources": [S1, S2], "entries": [S2, None, S1]},
            {"listing": True, "global": [("B", "b")], "sources": [], "entries": []}]


def random_specs(chk, n, broken=0.0, filters=0.3):
    g = G(chk.rng)
    rv = []
    while len(rv) < n:
        t = g.template()
        if chk.rng.random() < broken:
            t = g.broken(t)
        rv.append({"tmpl": t, "ctx": g.context(filters)})
    return rv


def from_model(chk, size, cap=None):
    r = chk.model_check("MCTemplate", "MCTemplate%d.cfg" % size, minimum=100, timeout=850)
    specs = [from_mc(c) for c in r.printed("CASE")]
    if len(specs) < 50:
        raise CheckError("the model printed only %d behaviours" % len(specs))
    if cap and len(specs) > cap:
        specs = chk.rng.sample(specs, cap)
    return specs


def statements():
    """sequences of statements of every nesting, well formed or not"""
    return ["{% block entry %}", "{% block listing %}", "{% endblock %}", "{% ifdef A %}", "{% if A == B %}", "{% else %}",
            "{% endif %}", "{% foreach LST %}", "{% endforeach %}"]


def nestings(n):
    for k in range(1, n + 1):
        for p in itertools.product(statements(), repeat=k):
            yield "".join(s + str(i) for i, s in enumerate(p)).encode()


CHARS = ["{", "%", "}", "-", " ", "A", "a", "\n"]


def short_texts(n):
    for k in range(1, n + 1):
        for p in itertools.product(CHARS, repeat=k):
            yield "".join(p).encode()


def statement_variants():
    """every single-character edit of a few statements"""
    base = ["x {% if A == B %} y {% endif %} z", "x {%- ifdef A -%} y {%- else -%} z {%- endif -%} w",
            "x {% block listing_once %} y {% endblock %}", "x {% foreach LST %}{{ FOREACH_ITEM }}{% endforeach %} z",
            "{% if A_1 >= \"a\" %}y{% endif %}", "a {{ TITLE_3 }} b"]
    for b in base:
        b = b.encode()
        for i in range(len(b) + 1):
            yield b[:i]
            if i < len(b):
                yield b[:i] + b[i + 1:]
            for c in [b"{", b"}", b"%", b"-", b" ", b"\"", b"a", b"A", b"_", b"1", b"\n", b"=", b"\\"]:
                yield b[:i] + c + b[i:]
                yield b[:i] + c + b[i + 1:]


def C01():
    chk = Check("C01", "model_checking")
    with Scratch() as d:
        specs = from_model(chk, 6 if QUICK else 7, 12000 if QUICK else None)
        specs += random_specs(chk, 5000 if QUICK else 60000)
        cov = execute(chk, specs, d, "plain")
        cov2 = execute(chk, random_specs(chk, 1500 if QUICK else 20000, 0.1), d, "asan")
    return chk.finish(exhaustive=False, with_address_sanitizer=cov2, bound="all well nested templates of up to %d "
                      "statements in 5 contexts" % (6 if QUICK else 7), **cov)


def C02():
    chk = Check("C02", "model_checking")
    ctx = small_contexts()
    with Scratch() as d:
        specs = from_model(chk, 5)
        for i, t in enumerate(itertools.chain(nestings(4 if QUICK else 5), statement_variants(),
                                              short_texts(4 if QUICK else 5))):
            specs.append({"tmpl": t, "ctx": ctx[i % 2]})
        cov = execute(chk, specs, d, "plain")
        cov2 = execute(chk, random_specs(chk, 4000 if QUICK else 40000, 0.7, 0.05), d, "asan")
    return chk.finish(exhaustive=False, random_with_address_sanitizer=cov2, bound="all sequences of up to %d of 9 "
                      "statements, all texts of up to %d of 8 characters, all single character edits of 6 templates"
                      % ((4, 4) if QUICK else (5, 5)), **cov)


def cleaner_specs(chk):
    """text, a statement with or without cleaners, text: every combination around every kind of neighbour"""
    ws = ["", " ", "\n", " x", "x ", " x ", "\n\t x\n ", "\v\f\r\n", "a{ ", " {b", " é ", "-", " - ", "{ "]
    stmts = ["{%s ifdef A %s}", "{%s else %s}", "{%s endif %s}"]
    ctx = small_contexts()
    i = 0
    for a in ws:
        for b in ws:
            for l, r in itertools.product(["%", "%-"], ["%", "-%"]):
                for form in ("T{%s ifdef A %s}U{%% endif %%}V", "T{%% ifdef A %%}U{%s endif %s}V", "T{%% ifdef A %%}x{%s else %s}U{%% endif %%}",
                             "T{%% ifdef UND %%}x{%s else %s}U{%% endif %%}", "{{ A }}T{%s ifdef A %s}{{ B }}U{%% endif %%}",
                             "T{%s foreach LST %s}U{%%- endforeach -%%}V", "T{%s block listing %s}U{%% endblock %%}V",
                             "T{%s if A == B %s}U{%%- else %%}V{%% endif -%%}{{ A }} U", "T{%% ifdef A -%%}{%s endif %s}U"):
                    t = (form % (l, r)).replace("T", a, 1).replace("U", b).replace("V", a)
                    yield {"tmpl": t.encode(), "ctx": ctx[i % 3]}
                    i += 1


def C03():
    chk = Check("C03", "model_checking")
    with Scratch() as d:
        specs = from_model(chk, 5)
        specs += cleaner_specs(chk)
        g = G(chk.rng)
        for _ in range(6000 if QUICK else 60000):
            parts = []
            for _ in range(chk.rng.choice([1, 2, 3, 5])):
                parts.append(g.text() + g.r.choice(["", " ", "\n ", "\t"]))
                parts.append(g.stmt("ifdef " + g.r.choice(["A", "UND"]), 0.2) + g.seq(1, True, True))
                if g.p(0.5):
                    parts.append(g.stmt("else", 0.2) + g.seq(1, True, True))
                parts.append(g.stmt("endif", 0.2))
            specs.append({"tmpl": ("".join(parts) + g.text()).encode(), "ctx": g.context(0)})
        cov = execute(chk, specs, d, "plain")
        cov2 = execute(chk, random_specs(chk, 1500 if QUICK else 20000, 0.1), d, "asan")
    return chk.finish(exhaustive=False, random_with_address_sanitizer=cov2, **cov)


def C04():
    chk = Check("C04", "model_checking")
    with Scratch() as d:
        specs = from_model(chk, 5)
        g = G(chk.rng)
        ctxs = [g.context(0.1) for _ in range(30 if QUICK else 400)]
        every = "".join("[{{ %s }}{%% ifdef %s %%}1{%% else %%}0{%% endif %%}]" % (n, n) for n in REFS)
        loop = "{% foreach LST %}" + "".join("<{{ %s }}>" % n for n in REFS if n.startswith("FOREACH") or n in ("A", "LST_4")) + \
               "{% if FOREACH_ITEM == A %}=A{% endif %}{% if FOREACH_VALUE_2 != B %}!B{% endif %}{% endforeach %}"
        for c in ctxs:
            for t in (every, "{% block entry %}" + every + loop + "{% endblock %}", loop, loop.replace("LST", "TAGS"),
                      "{% block listing %}" + every + loop.replace("LST", "TAGS") + "{% endblock %}" + every,
                      "{% block listing_entry %}" + every + loop + "{% endblock %}{% block listing_once %}" + every + "{% endblock %}"):
                specs.append({"tmpl": t.encode(), "ctx": c})
            # comparisons
            t = ""
            for _ in range(25):
                t += g.stmt("if %s %s %s" % (g.name(), g.r.choice(OPS), g.r.choice(STRS + REFS)), 1) + "1{% else %}0{% endif %}"
            specs.append({"tmpl": t.encode(), "ctx": c})
            specs.append({"tmpl": ("{%% block %s %%}" % ("listing" if c["listing"] else "entry") + t + "{% endblock %}").encode(), "ctx": c})
        cov = execute(chk, specs + random_specs(chk, 2500 if QUICK else 40000), d, "plain")
        cov2 = execute(chk, random_specs(chk, 1500 if QUICK else 20000, 0.1), d, "asan")
        printed(chk, d)
    return chk.finish(exhaustive=False, random_with_address_sanitizer=cov2, **cov)


def printed(chk, d):
    """-p shows the value a reference resolves to"""
    blogc = build("asan")["blogc"]
    g = G(chk.rng)
    todo = []
    rn = Runner(blogc, d)
    for i in range(2000 if QUICK else 20000):
        c = g.context(0)
        n = g.name() if g.p(0.95) else g.r.choice(["", "a", "_", "1", "_1", "A-B", "DATE_", "_FORMATTED", "_FORMATTED_1", "FORMATTED"])
        srcs = [rn.source(s, "f%d" % j) for j, s in enumerate(c["sources"])]
        todo.append((i, c, n, srcs))

    def one(x):
        i, c, n, srcs = x
        argv = [blogc] + sum((["-D", k + "=" + v] for k, v in c["global"]), []) + (["-l"] if c["listing"] else []) + ["-p", n] + srcs
        r = run(argv)
        glob = [["BLOGC_VERSION", "0.0.0"]] + [list(y) for y in c["global"]]
        return {"id": i, "name": bl(n), "listing": c["listing"], "global": [[bl(k), bl(v)] for k, v in glob],
                "sources": [[[bl(k), bl(strip(v))] for k, v in (e or [("NOTHING", "1")]) + [("FILENAME", "f%d" % j)]]
                            for j, e in enumerate(c["sources"])],
                "rc": r.rc, "out": bl(r.out), "err": r.err != b""}
    cases = pmap(one, todo)
    chk.conform("TracePrint", cases, lambda c: one(todo[c["id"]]),
                lambda c, e: "blogc -p %r: status %d, %r; expected status %d, %r\nglobal %r\nsources %r" % (
                    show(c["name"]), c["rc"], show(c["out"]), e["rc"], show(e["out"]),
                    {show(k): show(v) for k, v in c["global"]}, [{show(k): show(v) for k, v in s} for s in c["sources"]]))
