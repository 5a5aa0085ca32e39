"""C18, C19: blogc-runserver."""
import hashlib, itertools, resource, select, socket, threading
from urllib.parse import unquote_to_bytes
from vp import *
from sitelib import NOBODY

PREP = ["setpriv", "--reuid=%d" % NOBODY, "--regid=%d" % NOBODY, "--clear-groups", "--"]
ROOTUSER = os.geteuid() == 0


class Web:
    """A running blogc-runserver, as an unprivileged user."""
    used, lock = set(), threading.Lock()

    def __init__(self, prog, docroot, cwd="/", threads=None, preexec=None, env=None):
        for attempt in range(50):
            with Web.lock:
                while True:
                    s = socket.socket()
                    s.bind(("127.0.0.1", 0))
                    self.port = s.getsockname()[1]
                    s.close()
                    if self.port not in Web.used:
                        Web.used.add(self.port)
                        break
            argv = (PREP if ROOTUSER else []) + [prog, "-p", str(self.port)] + (["-m", str(threads)] if threads else []) + [docroot]
            self.p = subprocess.Popen(argv, cwd=cwd, env=dict(BASE_ENV, **(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=preexec)
            self.err = b""
            t = time.time()
            while b" * Running on" not in self.err:
                if select.select([self.p.stderr], [], [], 0.5)[0]:
                    x = os.read(self.p.stderr.fileno(), 65536)
                    if not x:
                        break
                    self.err += x
                if time.time() - t > 30:
                    break
            if b" * Running on" in self.err:
                break
            self.p.kill()
            self.p.communicate()
        else:
            raise CheckError("blogc-runserver does not start: %r" % self.err)
        self.drain = threading.Thread(target=self._drain, daemon=True)
        self.drain.start()

    def _drain(self):
        while True:
            try:
                x = os.read(self.p.stderr.fileno(), 65536)
            except OSError:
                return
            if not x:
                return
            self.err += x

    def connect(self, timeout=10):
        return socket.create_connection(("127.0.0.1", self.port), timeout)

    waits = 0       # answers that did not come in time

    def ask(self, request, eof=False):
        """Sends all at once and receives until the end."""
        timeout = 10 if Web.waits < 10 else 1
        try:
            s = self.connect(timeout)
        except OSError:
            return None
        out = b""
        try:
            s.sendall(request)
            if eof:
                s.shutdown(socket.SHUT_WR)
            while True:
                x = s.recv(1 << 20)
                if not x:
                    break
                out += x
        except OSError as e:
            Web.waits += isinstance(e, TimeoutError)
            out = None if not out else out + b"<" + str(e).encode() + b">"
        finally:
            s.close()
        return out

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        self.p.kill()
        self.p.wait()
        self.drain.join(5)
        self.p.stderr.close()


STATUS = re.compile(rb"HTTP/1\.[01] ([1-5][0-9][0-9]) [^\r\n]+\r\n\Z")


def token(b):
    return b if len(b) <= 64 else b"#%d:%s" % (len(b), hashlib.sha256(b).hexdigest().encode())


def parse(raw):
    """A response as the specification sees it."""
    got = {"whole": False, "closed": raw == b"", "status": 0, "type": [], "location": [], "body": []}
    if not raw:
        return got
    head, sep, body = raw.partition(b"\r\n\r\n")
    if not sep:
        return got
    lines = head.split(b"\r\n")
    m = STATUS.match(lines[0] + b"\r\n")
    heads = {}
    ok = m is not None
    for l in lines[1:]:
        n, c, v = l.partition(b":")
        ok = ok and bool(c) and n.lower() not in heads and b"\n" not in l and b"\r" not in l
        heads[n.lower()] = v.strip(b" \t")
    n = heads.get(b"content-length", b"x")
    got.update(whole=ok and n.isdigit() and int(n) == len(body), status=int(m.group(1)) if m else 0, type=bl(heads.get(b"content-type", b"")),
               location=bl(heads.get(b"location", b"")), body=bl(token(body)))
    return got


def request(address, rnd=None, method=b"GET"):
    line = method + b" " + address + b" "
    x = rnd.random() if rnd else 1
    if x < 0.1:
        return line + b"\r\n\r\n"
    if x < 0.2:
        return line + b"HTTP/1.1 and more\n\n"
    if x < 0.4:
        return line + b"HTTP/1.1\r\nHost: localhost:8080\r\nUser-Agent: x y z\r\nAccept: */*\r\n\r\n"
    return line + b"HTTP/1.0\r\n\r\n"


# nodes: (path relative to the base, kind, data, open); the root is a path relative to the base.
# A link that starts with "^" is absolute: the base, and the rest.

def f(p, d, o=True):
    return (p, "file", d if isinstance(d, bytes) else d.encode(), o)


def d(p, o=True):
    return (p, "dir", b"", o)


def l(p, t):
    return (p, "link", t if isinstance(t, bytes) else t.encode(), True)


def enc(p):
    return p if isinstance(p, bytes) else os.fsencode(p)


class Sites:
    def __init__(self, top):
        self.top, self.n, self.lock = top, 0, threading.Lock()
        os.chmod(top, 0o755)
        self.prog = build("plain")["blogc-runserver"]

    def place(self, nodes):
        with self.lock:
            self.n += 1
            base = os.path.join(self.top, "s%d" % self.n)
        os.mkdir(base)
        B = os.fsencode(base)
        shut = []
        for p, k, t, o in nodes:
            q = os.path.join(B, enc(p))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if k == "dir":
                os.makedirs(q, exist_ok=True)
            elif k == "file":
                with open(q, "wb") as fp:
                    fp.write(t)
            else:
                os.symlink(B + t[1:] if t[:1] == b"^" else t, q)
            if not o:
                shut.append(q)
        for q in shut:
            os.chmod(q, 0)
        return base

    def tree(self, base, nodes):
        """What the specification has to know."""
        B = os.fsencode(base)
        rv = {}
        up = B
        while up != b"/":
            rv[up] = [{"k": "dir", "d": [], "open": True}]
            up = os.path.dirname(up)
        for p, k, t, o in nodes:
            q = os.path.join(B, enc(p))
            up = os.path.dirname(q)
            while up not in rv:
                rv[up] = [{"k": "dir", "d": [], "open": True}]
                up = os.path.dirname(up)
            if k == "link" and t[:1] == b"^":
                t = B + t[1:]
            rv[q] = [{"k": k, "d": bl(token(t) if k == "file" else t), "open": o or not ROOTUSER}]
        return [[[bl(s) for s in q[1:].split(b"/")], n[0]] for q, n in sorted(rv.items())]

    def serve(self, spec):
        """spec: nodes, root, form, asks [(request, eof)]; returns the cases."""
        base = self.place(spec["nodes"])
        tree = self.tree(base, spec["nodes"])
        root = os.path.join(base, spec["root"])
        form = spec.get("form", "abs")
        cwd = "/"
        arg = root
        asks = spec["asks"]
        if form == "slash":
            arg = root + "//"
        elif form == "rel":
            cwd, arg = base, spec["root"]
        elif form == "dot":
            cwd, arg = root, "."
        elif form == "up":
            arg = os.path.join(root, "..", os.path.basename(root))
        elif form == "link":
            os.symlink(spec["root"], os.path.join(base, "the-root"))
            tree.append([[bl(s) for s in os.fsencode(os.path.join(base, "the-root"))[1:].split(b"/")], {"k": "link", "d": bl(spec["root"]), "open": True}])
            arg = os.path.join(base, "the-root")
        elif form == "/":
            arg = "/"
            asks = [(a.replace(b"GET /", b"GET " + os.fsencode(root) + b"/", 1), e) for a, e in asks]
        w = Web(self.prog, arg, cwd)
        rv = []
        try:
            rootsegs = [bl(s) for s in os.fsencode(os.path.normpath(os.path.join(cwd, arg)) if form != "up" else arg)[1:].split(b"/") if s]
            for i, (a, eof) in enumerate(asks):
                raw = w.ask(a, eof)
                got = parse(raw)
                rv.append({"tree": tree, "root": rootsegs, "request": bl(a), "got": got, "spec": dict(spec, asks=[spec["asks"][i]])})
        finally:
            w.stop()
            if base.startswith("/tmp/"):
                subprocess.run(["chmod", "-R", "u+rwX", base], stderr=subprocess.DEVNULL)
                shutil.rmtree(base, ignore_errors=True)
        return rv


def judged(chk, specs, top):
    S = Sites(top)
    keep = {}

    def strip(c, i):
        keep[i] = c.pop("spec")
        c["id"] = i
        return c

    cases = []
    for cs in pmap(S.serve, specs):
        for c in cs:
            cases.append(strip(c, len(cases)))

    def rerun(c):
        c2 = S.serve(keep[c["id"]])[0]
        c2.pop("spec")
        c2["id"] = c["id"]
        return c2

    def describe(c, e):
        g = c["got"]
        return "request %r\ntree %s\nroot /%s\nexpected: %s type %r location %r body %r\nobserved: %s whole %s type %r location %r body %r" % (
            show(c["request"])[:300], ["%s %s %r%s" % (b"/".join(bytes(s) for s in p), n["k"], show(n["d"])[:40], "" if n["open"] else " (closed)") for p, n in c["tree"]][:40],
            "/".join(show(s) for s in c["root"]), e["status"], show(e["type"]), show(e["location"]), show(e["body"])[:80],
            g["status"], g["whole"], show(g["type"]), show(g["location"]), show(g["body"])[:200])

    chk.conform("TraceHttp", cases, rerun, describe)
    for c in cases[:: max(1, len(cases) // 6)]:
        chk.sample("%s -> %d %s" % (show(c["request"])[:80], c["got"]["status"], show(c["got"]["type"])))
    return {"requests": len(cases), "statuses": {s: sum(1 for c in cases if c["got"]["status"] == s) for s in {c["got"]["status"] for c in cases}}}


# ------------------------------------------------------------------------ what is asked

def from_model(hists):
    """The trees and addresses of MCHttp."""
    by = {}
    for h in hists:
        by.setdefault(json.dumps(h["tree"]), []).append(bytes(h["address"]))
    rv = []
    for t, addresses in sorted(by.items()):
        nodes = []
        for p, n in json.loads(t):
            data = bytes(n["d"])
            if n["k"] == "link" and data.startswith(b"/"):
                data = b"^" + data
            nodes.append((b"/".join(bytes(s) for s in p), n["k"], data, n["open"]))
        rv.append({"nodes": nodes, "root": "w", "asks": [(request(a), False) for a in addresses]})
    return rv


INDEXES = ["index.html", "index.htm", "index.shtml", "index.xml", "index.txt", "index.xhtml"]
TYPES = re.findall(r'T\("([^"]+)"\), T\("([^"]+/[^"]+)"\)', open(os.path.join(SPEC, "Http.tla")).read())
OUT = [f("s", "the secret of the base"), f("w-private/s", "the secret of the sibling"), f("w-private/index.html", "the index of the sibling"), d("w")]


def q(b, safe=b"/.-_~abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"):
    return b"".join(bytes([c]) if c in safe else b"%%%02X" % c for c in b)


def systematic(rnd):
    rv = []
    G = lambda a, **k: (request(enc(a), **k), False)

    # types: every known extension, also at other places and in other cases
    nodes, asks = list(OUT), []
    for e in sorted({e for e, t in TYPES}) + ["", "xyz", "html5", "htmlx", "tml", "tar.gz", "c", "hTml"]:
        for n in {"n." + e, "n.css." + e, e, "." + e, "N." + e.upper(), "n." + e + ".zzz", "d.%s/n" % e, "n." + e + "x", "n." + e[:-1], "n..%s" % e, "n.%s." % e, "e." + e + "/index.html"}:
            if n.endswith("/") or not n or n in (".", "..") or n.startswith("/") or any(x[0] == "w/" + n for x in nodes):
                continue
            nodes.append(f("w/" + n, "<" + n + ">"))
            asks.append(G("/" + n))
    # (a tree in every case: not too large)
    for i in range(0, len(asks), 40):
        names = {a[0].split(b" ")[1][1:] for a in asks[i:i + 40]}
        rv.append({"nodes": OUT + [x for x in nodes[len(OUT):] if os.fsencode(x[0][2:]) in names], "root": "w", "asks": asks[i:i + 40]})

    # indexes: every set of names
    for n in range(7):
        nodes, asks = list(OUT), []
        for k, c in enumerate(itertools.combinations(INDEXES, n)):
            for i in c:
                nodes.append(f("w/d%d/%s" % (k, i), "%d%s" % (k, i)))
            if not c:
                nodes.append(d("w/d%d" % k))
            asks += [G("/d%d/" % k), G("/d%d" % k), G("/d%d/." % k)]
        nodes += [f("w/x/index", "1"), f("w/x/index.html5", "1"), f("w/x/Index.html", "2"), f("w/x/index.css", "2"), f("w/x/xindex.html", "2")]
        rv.append({"nodes": nodes, "root": "w", "asks": asks + [G("/x/"), G("/x")]})
        for form in ("slash", "rel", "dot", "up", "link", "/"):
            c = next(itertools.combinations(INDEXES, n))
            nodes = OUT + [f("w/" + i, "root " + i) for i in c] + [f("w/a/" + i, "a " + i) for i in c[::-1]] + [d("w/a"), l("w/o", "../s"), l("w/p", "^/w/a"), l("w/r", ".."), l("w/t", "^/w-private"), f("w/b.css", "b")]
            rv.append({"nodes": nodes, "root": "w", "form": form,
                       "asks": [G(x) for x in ("/", "/.", "/..", "/../", "/../w", "/../w/", "/../w/b.css", "/../w-private/s", "/../w-private", "//a", "//a/", "///a", "/a", "/a/", "/a?x", "/p", "/p/", "/o",
                                               "/r/s", "/r/w/b.css", "/t/s", "/t", "/t/", "/b.css", "/b.css/", "/b.css/.", "/b.css/..", "/%2e%2e/s", "/..%2fs", "/a/..//b.css", "/./b.css", "/z/../b.css", "/a/../z")]})
        # an index that is something else
        nodes = list(OUT)
        asks = []
        for k, i in enumerate(INDEXES):
            for j, x in enumerate([l("w/%d-0/" % k + i, "../../s"), l("w/%d-1/" % k + i, "../../w-private/index.html"), l("w/%d-2/" % k + i, "../b.css"), l("w/%d-3/" % k + i, "none"), d("w/%d-4/" % k + i),
                                   f("w/%d-5/" % k + i, "closed", False), l("w/%d-6/" % k + i, i), l("w/%d-7/" % k + i, "^/w-private")]):
                nodes.append(x)
                if n and j in (3, 6):
                    nodes += [f("w/%d-%d/" % (k, j) + INDEXES[n - 1], "other")] if INDEXES[n - 1] != i else []
                asks += [G("/%d-%d/" % (k, j)), G("/%d-%d" % (k, j))]
        if n < 3:
            rv.append({"nodes": nodes + [f("w/b.css", "b")], "root": "w", "asks": asks})

    # every byte in a name, written in three ways
    for lo in range(0, 256, 64):
        nodes, asks = list(OUT), []
        for c in range(lo, lo + 64):
            if c not in (0, 47):
                nodes.append(f(b"w/f" + bytes([c]) + b"x", "byte %d" % c))
            asks += [G(b"/f%%%02Xx" % c), G(b"/f%%%02xx" % c), G(b"/f" + bytes([c]) + b"x"), G(b"/%%66%%%02x%%78?" % c)]
        rv.append({"nodes": nodes, "root": "w", "asks": asks})
    # escapes: every short text
    texts = [b"".join(t) for n in (1, 2, 3, 4) for t in itertools.product([b"%", b"4", b"A", b"g", b"+"], repeat=n)]
    for k in range(0, len(texts), 130):
        nodes, asks = [], []
        names = set()
        for t in texts[k:k + 130]:
            x = unquote_to_bytes(t).replace(b"+", b" ")
            names |= {t, x, unquote_to_bytes(t.replace(b"+", b" ")), b"n" + x} - {b"", b".", b".."}
            asks += [G(b"/" + t), G(b"/n" + t)] if len(t) < 4 else [G(b"/" + t)]
        nodes += [f(b"w/" + n, b"name " + n) for n in sorted(names) if b"/" not in n and b"\0" not in n]
        rv.append({"nodes": nodes, "root": "w", "asks": asks})
    # encoded separators, dots, questions, and escapes of escapes
    nodes = OUT + [f("w/a b/c?d", "1"), f("w/a b/%41", "2"), f("w/a b/A", "3"), f("w/index.html", "4"), f("w/a b/index.xml", "5"), f("w/é/index.txt", "6"), f("w/a#b", "7"), f("w/x&y=z;", "8"), f("w/...", "9"), f("w/..a/b", "10"),
                   f("w/back\\slash.css", "11"), f("w/a\\..\\b", "12"), d("w/a\nb"), f("w/a\r\nX: y/index.html", "13"), f("w/~", "14"), f("w/d/..b/index.html", "15"), f("w/a:b/index.html", "16")]
    asks = [G(x) for x in ("/a%20b/c%3Fd", "/a%20b/c%3fd?c", "/a%20b/c?d", "/a+b/A", "/a%2Bb/A", "/a%20b%2FA", "/a%20b/%41", "/a%20b/%2541", "/a%20b/%25%34%31", "/a%20b", "/a%20b?x=y", "/a%20b/", "/a+b", "/a%20b%2f",
                           "/a%20b%2F?x", "/%C3%A9", "/%c3%a9/", "/é", "/é/", "/a%23b", "/a#b", "/x&y=z;", "/x%26y%3dz%3B", "/...", "/..a/b", "/..a/../...", "/%2e", "/%2e/", "/%2e%2e", "/%2e%2e%2f", "/%2e%2e/w/...",
                           "/%2e%2e/w-private/s", "/%2e%2e%2fs", "/..%2f..%2fetc%2fpasswd", "/../../../../../../etc/passwd", "//etc/passwd", "/%2fetc%2fpasswd", "/back%5Cslash.css", "/back\\slash.css", "/a%5C..%5Cb", "/..%5Cs", "/..\\s",
                           "/a%0D%0AX:%20y", "/a%0d%0aX:%20y/", "/a%0Ab", "/a%0ab/", "/%00", "/a%00b", "/a%20b/A%00", "/a%20b/A%00.css", "/%2500", "/a%20b/%00/../A", "/%0", "/a%20b/A%0", "/a%20b/A%", "/%%00", "/a%20b/A%0%30",
                           "/~", "/%7E", "/%7e", "/d/..b", "/d/..b/", "/a:b", "/a%3Ab", "/a%3Ab/", "?", "?x", "/?", "/?x?y", "/??", "/a%20b/??", "index.html", "a%20b", "a%20b/", ".", "..", "../s", "%2e%2e/s", "?/../s", "/index.html?a%00", "/index.html%3F",
                           "//", "///", "/////index.html", "//a%20b", "//a%20b//", "/.//a%20b", "/a%20b//A", "/%2F%2Fa%20b", "/%2Fa%20b", "%2Fa%20b", "%2F", "http://localhost/", "*", "/" + "x" * 255, "/" + "x" * 256, "/" + "x" * 300, "/x/" + "y" * 300)]
    for i in range(0, len(asks), 45):
        rv.append({"nodes": nodes, "root": "w", "asks": asks[i:i + 45]})

    # methods, lines, and sizes around the buffers
    nodes = OUT + [f("w/index.html", "index"), f("w/GET", "not a method"), f("w/a", "a"), f("w/d/index.html", "d")]
    lines = [b"GET /a HTTP/1.0", b"GET /a HTTP/1.1", b"GET /a HTTP/0.9", b"GET /a x y z", b"GET /a ", b"GET /a", b"GET /", b"GET / ", b"GET", b"GET ", b"GET  ", b"GET  HTTP/1.0", b"GET  /a HTTP/1.0", b" GET /a HTTP/1.0",
             b" /a HTTP/1.0", b"  ", b"   ", b" ", b"", b"get /a HTTP/1.0", b"Get /a HTTP/1.0", b"HEAD /a HTTP/1.0", b"POST /a HTTP/1.0", b"PUT /a HTTP/1.0", b"DELETE /a HTTP/1.0", b"OPTIONS * HTTP/1.0",
             b"GETT /a HTTP/1.0", b"GE /a HTTP/1.0", b"GET\t/a\tHTTP/1.0", b"GET\t/a HTTP/1.0", b"GET /a\tHTTP/1.0", b"HEAD  HTTP/1.0", b"POST /none HTTP/1.0", b"X  Y", b"/a", b"\xff\xfe /a HTTP", b"GET /a\0 HTTP/1.0", b"\0GET /a HTTP/1.0",
             b"GET\0 /a HTTP/1.0", b"GET /d HTTP/1.0\0x", b"POST /d", b"GET /../s HTTP/1.0", b"HEAD /../s HTTP/1.0"]
    asks = [(x + e, eof) for x in lines for e, eof in ((b"\r\n\r\n", False), (b"\n\n", False), (b"\r\n\r\n", True), (b"\r\r", False), (b"\r\nHost: x\r\nGET /d HTTP/1.0\r\n\r\n", False), (b"", True))]
    for i in range(0, len(asks), 90):
        rv.append({"nodes": nodes, "root": "w", "asks": asks[i:i + 90]})
    asks = []
    for size in [s + k for s in (2048, 4096, 6144, 8192, 20480) for k in (-3, -2, -1, 0, 1, 2, 3)] + [127, 128, 129, 65536, 300000]:
        for pre, post in ((b"GET /a?", b" HTTP/1.0\r\n\r\n"), (b"GET /d?", b" HTTP/1.0\r\n\r\n"), (b"GET /a HTTP/1.0\r\nX: ", b"\r\n\r\n"), (b"GET /d/?", b" "), (b"POST /a HTTP/1.0\r\n\r\n", b""), (b"", b"")):
            n = size - len(pre) - len(post)
            if n > 0 and not (post in (b" ", b"") and pre[:4] != b"POST"):
                asks.append((pre + b"z" * n + post, False))
            elif n > 0:
                asks.append((pre + b"z" * n + post, True))
            # the first read ends right here
        for k in (1, 2, 3, 4):
            x = b"GET /a?" + b"z" * (size - 7 - k) + b" HTTP/1.0\r\n\r\n"
            asks.append((x, False))
    asks = [(a, e) for a, e in asks if len(a) < 30000]
    for n in (1, 50, 500, 1000, 1700):
        asks += [G("/" + "./" * n + "a"), G("/" + "d/../" * (n // 3) + "a"), G("/" + "%2e%2f" * n + "d"), G("/" * n + "d"), G("/" + "./" * n + "../s")]
    # (in the specification, long lines are slow)
    for i in range(0, len(asks), 30):
        rv.append({"nodes": nodes, "root": "w", "asks": asks[i:i + 30]})

    # contents
    big = [f("w/%d.css" % n, bytes((i * 7 + n) % 256 for i in range(n))) for n in (0, 1, 2, 127, 128, 129, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537)] + \
          [f("w/big.html", rnd.randbytes(3 << 20)), f("w/nul.txt", b"\0a\0\0"), f("w/text.html", "HTTP/1.0 200 OK\r\n\r\nx"), f("w/bom.css", b"\xef\xbb\xbfx"), f("w/crlf.txt", b"\r\n" * 9), f("w/bad", b"\xff\x80\xc0")]
    rv.append({"nodes": OUT + big, "root": "w", "asks": [G(x[0][1:]) for x in big] * 2})
    # links in links, in rings, and closed things
    nodes = OUT + [f("w/a/b/c", "c"), l("w/1", "a"), l("w/2", "1/b"), l("w/3", "2/c"), l("w/4", "../w/3"), l("w/5", "^/w/4"), l("w/6", "5"), l("w/ring", "ring2"), l("w/ring2", "ring"), l("w/none", "nothing"), l("w/out", "../w-private"),
                   l("w/back", "../w-private/../w/a/b"), l("w/base", ".."), l("w/up/again", "../.."), d("w/shut", False), f("w/shutf", "closed", False), l("w/toshut", "shutf"), f("w/x/index.html", "closed", False), f("w/x/index.txt", "open"),
                   l("w/self", "."), l("w/long", "./" * 30 + "a/b/c"), l("w/f/..c", "../a"), d("w/nothing2"), l("w-private/in", "../w/a/b/c"), l("w/outin", "../w-private/in")]
    asks = [G(x) for x in ("/1", "/1/b/c", "/2/c", "/2", "/2/", "/3", "/4", "/5", "/6", "/ring", "/ring2/x", "/none", "/none/", "/out", "/out/", "/out/s", "/out/../w/a/b/c", "/back/c", "/base/w/a/b/c", "/base/s", "/base", "/up/again/a/b/c",
                           "/up/again/w/a/b/c", "/shut", "/shut/", "/shut/x", "/shutf", "/toshut", "/x", "/x/", "/x/index.txt", "/self/self/self/3", "/self", "/long", "/f/..c/b/c", "/nothing2", "/nothing2/", "/outin", "/3/", "/3/..", "/3/../3",
                           "/a/b/c/", "/a/b/c/.", "/a/b/c/../c", "/none/../3", "/ring/../3", "/shut/../3", "/out/../s", "/w-private/s", "-private/s", "/-private/s", "/../w-private/s", "/../w-private", "/../w-private/", "/../w-private/index.html",
                           "/../w-private/in", "/../w", "/../w/3", "/base/w-private/in", "/.../../3")]
    for form in ("abs", "link", "rel", "/"):
        rv.append({"nodes": nodes, "root": "w", "form": form, "asks": asks})
    return rv


NAMES = ["a", "b", "c d", "é", "100%", "a+b", "%41", "A", "x.css", "y.html", "index.html", "index.htm", "index.xml", "index.txt", "..a", "w", "w-private", "s", ".h", "q?r", "a&b", "n.tar.gz", "w2"]


def random_site(rnd):
    nodes = {x[0]: x for x in OUT}
    dirs = ["", "w", "w", "w", "w-private"]
    for i in range(rnd.randrange(2, 14)):
        p = os.path.join(rnd.choice(dirs), rnd.choice(NAMES))
        if p in nodes or p in ("w", "w-private"):
            continue
        x = rnd.random()
        o = rnd.random() < 0.93
        if x < 0.3:
            nodes[p] = d(p, o)
            if o:
                dirs += [p, p]
        elif x < 0.65:
            nodes[p] = f(p, "%s %d" % (p, rnd.randrange(1000)), o)
        else:
            there = rnd.choice(list(nodes))
            y = rnd.random()
            t = "^/" + there if y < 0.4 else os.path.relpath("/" + there, "/" + os.path.dirname(p)) if y < 0.8 else rnd.choice(["..", ".", "../..", "x", "../s", "../w-private", "../../w-private/s", "^/w"])
            nodes[p] = l(p, t)
    paths = [os.path.relpath(p, "w") for p in nodes] + [os.path.relpath(p, "w") + "/" for p in nodes]
    asks = []
    for i in range(30):
        x = rnd.random()
        segs = []
        if x < 0.5:
            segs = rnd.choice(paths).split("/")
        while x > 0.7 or rnd.random() < 0.35:
            segs.insert(rnd.randrange(len(segs) + 1), rnd.choice(NAMES + ["..", "..", ".", ""]))
            if rnd.random() < 0.4:
                break
        a = b"/".join(enc(s) for s in segs)
        y = rnd.random()
        if y < 0.35:
            a = q(a)
        elif y < 0.6:
            a = b"".join(b"%%%02x" % c if rnd.random() < 0.3 else bytes([c]) if c not in b" ?" else b"+" if rnd.random() < 0.5 and c == 32 else b"%%%02X" % c for c in a)
        elif y < 0.7:
            a = bytes(a)
        else:
            a = q(a, b"/.-_~+&abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
        a = (b"/" if rnd.random() < 0.95 else b"//" if rnd.random() < 0.5 else b"") + a
        if rnd.random() < 0.2:
            a += b"?" + rnd.choice([b"", b"a=b", b"/../s", b"?", b"%00", b"a/"])
        asks.append((request(a, rnd, b"GET" if rnd.random() < 0.97 else rnd.choice([b"POST", b"HEAD", b"get"])), rnd.random() < 0.1))
    return {"nodes": list(nodes.values()), "root": "w", "form": rnd.choice(["abs", "abs", "slash", "rel", "dot", "up", "link", "/"]), "asks": asks}


def C18():
    chk = Check("C18", "model_checking")
    r = chk.model_check("MCHttp", "MCHttp%d.cfg" % (2 if QUICK else 3), minimum=10000, timeout=900)
    hists = r.printed("CASE") if QUICK else chk.model_check("MCHttp", "MCHttp2.cfg", minimum=10000).printed("CASE")
    if len(hists) < 1000:
        raise CheckError("only %d cases" % len(hists))
    rnd = chk.rng
    specs = from_model(hists) + systematic(rnd) + [random_site(rnd) for i in range(60 if QUICK else 1500)]
    with Scratch() as top:
        cov = judged(chk, specs, top)
    return chk.finish(exhaustive=False, bound="all trees of up to %d further nodes and addresses of up to 3 segments (TLC), %d of them replayed; every extension, every set of index names, every byte in a name, every escape of up to "
                      "4 characters, sizes around the buffers, random trees" % (2 if QUICK else 3, len(hists)), **cov)


# ------------------------------------------------------------------------ many clients

def shim():
    """The compiled library that makes threads overtake each other."""
    src = os.path.join(ROOT, "harness", "delay.c")
    p = os.path.join(WORK, "delay-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16] + ".so")
    os.makedirs(WORK, exist_ok=True)
    if not os.path.exists(p):
        tmp = p + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], check=True)
        os.rename(tmp, p)
    return p


BIG = 5 << 20
CROWD = [d("w"), f("w/index.html", "the index of all"), f("s", "the secret of the base")] + [f("w/c%d.css" % i, "this is for client %d only" % i) for i in range(1, 41)] + \
        [f("w/d%d/index.html" % i, "directory %d" % i) for i in range(1, 6)] + [f("w/b%d" % i, bytes([i]) * (BIG + i)) for i in range(1, 9)]


LATER = b"this is sent later"


def crowd_request(i, big, rnd):
    """What client i asks for."""
    x = rnd.random()
    if big:
        a = b"/b%d" % i
    elif x < 0.55:
        a = b"/c%d.css" % i
    elif x < 0.65:
        a = b"/d%d" % (1 + i % 5)
    elif x < 0.7:
        a = b"/d%d/" % (1 + i % 5)
    elif x < 0.75:
        a = b"/none%d" % i
    elif x < 0.8:
        a = b"/../s"
    elif x < 0.85:
        return b"POST /c%d.css HTTP/1.0\r\nContent-Length: 3\r\n\r\nabc" % i
    elif x < 0.9:
        return b"nonsense%d\r\n\r\n" % i
    elif x < 0.95:
        return b"GET  HTTP/1.0\r\n\r\n"
    else:
        return b" \r\n\r\n"
    x = rnd.random()
    if big and x < 0.5:
        return b"GET " + a + b" HTTP/1.0\r\n\r\n" + LATER + b"z" * rnd.choice([1, 100, 3000])
    if x < 0.5:
        return b"GET " + a + b" HTTP/1.0\r\n\r\n"
    if x < 0.8:
        return b"GET " + a + b" HTTP/1.1\r\nHost: localhost\r\nX-Client: %d\r\n\r\n" % i
    return b"GET " + a + b" HTTP/1.1\r\nX: " + b"y" * rnd.choice([1900, 2000, 2010, 4000, 4070, 6100]) + b"\r\n\r\n"


class Client:
    def __init__(self, web, i, big, rnd):
        self.web, self.i, self.big, self.rnd = web, i, big, rnd
        self.request = crowd_request(i, big, rnd)
        line = re.search(rb"[\r\n]", self.request).start()
        if big:
            line = self.request.index(b" ", 4)      # (the file is not sent for a part of the line)
        self.cut = rnd.randrange(1, line + 1)
        self.sent, self.out = b"", bytearray()
        self.reading, self.dropped, self.ended = not big, False, False
        self.s = None

    def push(self, data):
        if LATER in data:
            k = data.index(LATER)
            self.push(data[:k])
            time.sleep(0.02)
            self.sent += data[k:]
            self.s.sendall(data[k:])
            return
        self.sent += data
        # in pieces, with the line never being the end of one
        at = re.search(rb"[\r\n]", data)
        k = self.rnd.randrange(1, 4)
        cuts = sorted({self.rnd.randrange(1, at.start() + 1) for j in range(k - 1)}) if at and at.start() > 0 else []
        for a, b in zip([0] + cuts, cuts + [len(data)]):
            try:
                self.s.sendall(data[a:b])
            except OSError:
                return
            if b != len(data) and self.rnd.random() < 0.7:
                time.sleep(self.rnd.random() * 0.01)

    def step(self, k):
        try:
            self._step(k)
        except OSError:
            pass            # (the server is gone, which is going to be noticed)

    def _step(self, k):
        if k in ("conn", "all"):
            self.s = socket.socket()
            if self.big:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
            self.s.settimeout(10)
            self.s.connect(("127.0.0.1", self.web.port))
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if k == "part":
            self.push(self.request[:self.cut])
        elif k in ("rest", "all"):
            self.push(self.request[len(self.sent):])
        elif k == "eof":
            self.reading = self.reading or self.sent != self.request       # (the answer is not the large one)
            try:
                self.s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        elif k == "drop":
            if self.rnd.random() < 0.5:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
            self.s.close()
            self.dropped = True
        elif k == "read":
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
            self.reading = True

    def take(self):
        try:
            x = self.s.recv(1 << 20)
        except OSError as e:
            self.out += b"<%s>" % str(e).encode()
            x = b""
        self.out += x
        if not x:
            self.ended = True
            self.s.close()


class Crowds:
    def __init__(self, top):
        self.S = Sites(top)
        self.base = self.S.place(CROWD)
        self.tree = self.S.tree(self.base, CROWD)
        self.root = [bl(x) for x in os.fsencode(os.path.join(self.base, "w"))[1:].split(b"/")]
        self.shim = shim()
        self.slow = 0

    def web(self, slots, delay, preexec=None):
        env = {"LD_PRELOAD": self.shim, "DELAY_SEED": str(delay), "DELAY_MAX": "1500"} if delay else None
        return Web(self.S.prog, os.path.join(self.base, "w"), threads=slots, env=env, preexec=preexec)

    def small(self, n, bigs):
        """The part of the tree that matters."""
        keep = {b"c%d.css" % i for i in range(1, n + 1)} | {b"b%d" % i for i in bigs}
        return [x for x in self.tree if not re.match(rb"[cb]\d+", bytes(x[0][-1])) or bytes(x[0][-1]) in keep]

    def wait(self, clients, want, limit):
        """Receives until all of want have been served, or too much time has passed."""
        end = time.time() + limit
        grace = None
        while True:
            now = time.time()
            if want <= {c.i for c in clients if c.ended} and grace is None:
                grace = now + 0.03
            if now > (grace or end):
                return
            rs = [c for c in clients if c.s is not None and c.reading and not c.ended and not c.dropped]
            if not rs:
                time.sleep(0.005)
                continue
            ready = set(select.select([c.s for c in rs], [], [], 0.005)[0])
            for c in rs:
                if c.s in ready:
                    c.take()

    def play(self, spec):
        """spec: slots (0: as many as by default), bigs, script with what is expected to be waited for, seed, delay."""
        rnd = random.Random(spec["seed"])
        slots = spec["slots"]
        web = self.web(slots if slots != 20 or rnd.random() < 0.5 else None, spec["delay"])
        n = max([x["c"] for x in spec["script"]], default=0)
        clients = [Client(web, i, i in spec["bigs"], rnd) for i in range(1, n + 1)]
        seen, late = [], False
        try:
            for x in spec["script"]:
                clients[x["c"] - 1].step(x["k"])
                want = {c for c in x["done"] if not clients[c - 1].dropped}
                t = time.time()
                self.wait(clients, want, 8 if self.slow < 12 else 1)
                if not want <= {c.i for c in clients if c.ended}:
                    self.slow += 1
                    late = True
                seen.append([c.i for c in clients if c.ended])
            for c in clients:
                if c.s is not None and not c.ended:
                    c.s.close()
            probe = crowd_request(1 + spec["seed"] % 5, False, random.Random(spec["seed"] + 1))
            last = web.ask(probe)
        finally:
            web.stop()
        spec["late"] = late or b"timed out" in (last or b"")
        return {"slots": slots, "bigs": spec["bigs"], "script": [{"k": x["k"], "c": x["c"]} for x in spec["script"]], "seen": seen, "sent": [bl(c.sent) for c in clients],
                "got": [parse(bytes(c.out) if c.ended else b"") for c in clients], "tree": self.small(max(n, 5), spec["bigs"]), "root": self.root, "probe": bl(probe), "last": parse(last)}


def fills(rnd):
    """Scripts that use up all the threads."""
    rv = []
    for slots in (1, 2, 3, 5, 7, 20):
        for kind in ("rest", "drop", "eof", "part"):
            script, done = [], []
            for i in range(1, slots + 1):
                script.append(("conn", i))
            script += [("all", slots + 1), ("conn", slots + 2), ("all", slots + 3)]
            i = rnd.randrange(1, slots + 1)
            if kind == "part":
                script += [("part", i)] + [("part", 1 + i % slots)] * (slots > 1) + [("rest", i)]
            else:
                script.append((kind, i))
            script += [("rest", slots + 2)] + [("drop", j) for j in range(1, slots + 1) if j != i]
            # the clients that can be waited for (what is right is decided by the specification)
            free, rs, open_ = slots, [], set()
            for k, c in script:
                open_ |= {c} if k in ("rest", "all", "eof", "drop") else set()
                order = sorted({x for y, x in script[:len(rs) + 1] if y in ("conn", "all")})
                fin = set()
                while True:
                    inside = [x for x in order if x not in fin][:slots]
                    more = {x for x in inside if x in open_}
                    if not more:
                        break
                    fin |= more
                rs.append({"k": k, "c": c, "done": sorted(fin)})
            rv.append({"slots": slots, "bigs": [], "script": rs})
    return rv


def stress(C, spec):
    """Many clients at the same time, each doing something else: what those that ask and wait have received."""
    rnd = random.Random(spec["seed"])
    web = C.web(spec["slots"], spec["delay"], spec.get("preexec"))
    rv = []
    lock = threading.Lock()
    plans = [(1 + rnd.randrange(40), rnd.random(), rnd.randrange(1 << 30)) for i in range(spec["clients"])]

    def one(p):
        i, kind, seed = p
        r = random.Random(seed)
        time.sleep(r.random() * spec["spread"])
        c = Client(web, i, False, r)
        try:
            if i <= 8 and kind < 0.3:
                # one that keeps on sending, and takes its time to receive
                c.big, c.request = True, b"POST /b%d HTTP/1.0\r\n\r\n" % i if kind < 0.1 else b"GET /b%d HTTP/1.0\r\n\r\n" % i
                c.step("all")
                for k in range(r.randrange(1, 6)):
                    time.sleep(r.random() * 0.01)
                    c.s.sendall(b"z" * r.choice([1, 100, 5000]))
                c.step("read")
            elif kind < 0.75:
                c.step("all")
            elif kind < 0.85:
                c.step("conn")
                c.step("part")
                time.sleep(r.random() * 0.05)
                c.step("rest")
            elif kind < 0.9:
                c.step("conn")
                c.step("part")
                time.sleep(r.random() * 0.05)
                c.step("drop")
                return
            elif kind < 0.95:
                c.step("all")
                c.step("drop")
                return
            else:
                c.step("conn")
                c.step("part")
                c.step("eof")
            c.s.settimeout(30 if C.slow < 20 else 3)
            while not c.ended:
                c.take()
        except OSError as e:
            c.out = bytearray(b"<%s>" % str(e).encode())
        if b"timed out" in c.out:
            C.slow += 1
        with lock:
            rv.append({"tree": C.small(0, []) + [x for x in C.tree if bytes(x[0][-1]) in (b"c%d.css" % i, b"b%d" % i)], "root": C.root, "request": bl(c.sent), "got": parse(bytes(c.out))})

    ts = [threading.Thread(target=one, args=(p,)) for p in plans]
    for k in range(0, len(ts), spec["together"]):
        for t in ts[k:k + spec["together"]]:
            t.start()
        for t in ts[k:k + spec["together"]]:
            t.join()
    for i in range(3):
        req = b"GET /c%d.css HTTP/1.0\r\n\r\n" % (1 + i)
        rv.append({"tree": [x for x in C.tree if not re.match(rb"[b]\d+", bytes(x[0][-1]))], "root": C.root, "request": bl(req), "got": parse(web.ask(req))})
    web.stop()
    return rv


def few_files():
    resource.setrlimit(resource.RLIMIT_NOFILE, (14, 14))


def exhausted(C, seed):
    """More clients than file descriptors; afterwards everything is as before."""
    rnd = random.Random(seed)
    web = C.web(20, 0, few_files)
    cs = [Client(web, 1 + i % 40, False, rnd) for i in range(30)]
    for c in cs:
        c.step("conn")
        if rnd.random() < 0.5:
            c.step("part")
    time.sleep(0.4)
    for c in cs:
        c.step("drop")
    time.sleep(0.3)
    rv = []
    for i in range(6):
        req = b"GET /c%d.css HTTP/1.0\r\n\r\n" % (1 + i)
        rv.append({"tree": C.small(6, []), "root": C.root, "request": bl(req), "got": parse(web.ask(req))})
    web.stop()
    return rv


def C19():
    chk = Check("C19", "model_checking")
    chk.model_check("MCServer", "MCServer%d.cfg" % (1 if QUICK else 3), minimum=10000, timeout=900)
    scripts = chk.model_check("MCScript", "MCScript%d.cfg" % (5 if QUICK else 6), minimum=10000, timeout=900).printed("CASE")
    if len(scripts) < 300:
        raise CheckError("only %d scripts" % len(scripts))
    r = chk.model_check("MCScript", "MCScriptSim.cfg", args=["-simulate", "num=%d" % (120 if QUICK else 3000), "-depth", "20", "-seed", str(SEED)], workers=1)
    long = r.printed("CASE")
    if len(long) < 100:
        raise CheckError("only %d long scripts" % len(long))
    rnd = chk.rng
    specs = scripts + long + fills(rnd)
    for i, s in enumerate(specs):
        s["seed"] = rnd.randrange(1 << 30)
        s["delay"] = rnd.randrange(1, 1 << 20) if i % 2 else 0
    with Scratch() as top:
        C = Crowds(top)
        cases = pmap(C.play, specs, 24)
        for i, c in enumerate(cases):
            c["id"] = i

        def rerun(c):
            # (a wrong answer is wrong, whatever the schedule was; one that was late might be the machine's fault)
            return dict(C.play(specs[c["id"]]), id=c["id"]) if specs[c["id"]]["late"] else c

        def describe(c, e):
            return "slots %d, large answers for %s\nscript %s\nserved after each step:\n  expected %s\n  observed %s\nrequests %s\nexpected %s\nobserved %s\nthe last one %r: expected %s, observed %s" % (
                c["slots"], c["bigs"], " ".join("%s(%d)" % (x["k"], x["c"]) for x in c["script"]), e["seen"], c["seen"], [show(x)[:60] for x in c["sent"]],
                [a["status"] for a in e["answers"]], [(g["status"], g["whole"], show(g["body"])[:40]) for g in c["got"]], show(c["probe"])[:60], e["probe"]["status"], c["last"]["status"])

        chk.conform("TraceServer", cases, rerun, describe)
        chk.sample("slots %d: %s" % (cases[-1]["slots"], " ".join("%s(%d)" % (x["k"], x["c"]) for x in cases[-1]["script"])))
        chk.sample("slots %d: %s" % (cases[len(scripts)]["slots"], " ".join("%s(%d)" % (x["k"], x["c"]) for x in cases[len(scripts)]["script"])))
        runs = []
        for slots in (1, 2, 3, 8, 20):
            for delay in (0, 1, 1):
                runs.append({"slots": slots, "delay": delay and rnd.randrange(1, 1 << 20), "seed": rnd.randrange(1 << 30), "clients": 90 if QUICK else 1500, "together": rnd.choice([10, 45, 90]), "spread": rnd.choice([0, 0.02, 0.1])})
        many = []
        for part in pmap(lambda s: stress(C, s), runs, 4) + [exhausted(C, rnd.randrange(1 << 30)) for i in range(2)]:
            many += part
        for i, c in enumerate(many):
            c["id"] = i

        def again(c):
            # (the schedule is not ours: what has been seen is what counts)
            return c

        chk.conform("TraceHttp", many, again, lambda c, e: "one of many clients: request %r: expected %s %r, observed %s whole %s %r" % (
            show(c["request"])[:100], e["status"], show(e["body"])[:60], c["got"]["status"], c["got"]["whole"], show(c["got"]["body"])[:100]))
    return chk.finish(exhaustive=False, bound="all behaviours of 3 clients and %d threads (TLC); every %s script of up to %d steps of up to 3 clients, random scripts of 18 steps of up to 8 clients, full servers, and crowds, with and without "
                      "random delays inside the server" % (1 if QUICK else 2, "23rd", 5 if QUICK else 6), scripts=len(cases), clients_in_crowds=len(many))
