"""Random applications with programs in their middleware and handlers, requests to them, and the
translation of what was recorded into trace lines for spec/TraceServer.tla. No expectation is
computed here."""
import common
from gen_routing import BLANK
import harvest
from noise import noise

TYPES = ["A", "B", "C", "S", "string"]
# look-alikes: same short name in two modules, one generic type of two others, shared and owned text
FAMILIES = [TYPES, TYPES, ["M1", "M2", "A"], ["W1", "W2", "A", "B"], ["S", "S2", "A"], ["string", "boxed", "bytes"], ["unit", "unit2", "A"], ["n%d" % k for k in range(16)] + ["A", "unit"], ["big", "A", "arc"], ["opt", "pair", "string", "arc"]]
UNITS = ("unit", "unit2")
PAIRS = [("A", "B"), ("A", "B"), ("M1", "M2"), ("W1", "W2"), ("A", "W1"), ("boxed", "string"), ("bytes", "string"), ("big", "A"), ("arc", "string"), ("opt", "string"), ("pair", "big"), ("S2", "B")]
HDRS = ["x-a", "x-b", "x-tag", "accept", "x-multi"]
SENT = ["host", "content-length", "transfer-encoding", "cookie", "content-type", "user-agent", "authorization", "referer"]
VALUES = ["1", "2", "v", "long-value-%d", "", "a b", "=", "x,y", "\"q\"", "0", "\u00e9", "a\\b", "v" * 300]
ERRTEXTS = ["", "a b c", "one\ntwo", "\r\nx: y\r\n\r\n", "\ttab", "caf\u00e9 \u65e5\u672c", "\"quoted\"", "<b>&amp;</b>", "\\", "{\"error\":1}", " lead", "trail ", "\n", "%20",
            "secret/path", "e" * 1, "e" * 255, "e" * 256, "e" * 257, "e" * 390, "e" * 1100, "{}", "{0}", "null", "Input should not be None"]
STATUSES = ["200", "201", "202", "206", "299", "301", "302", "307", "400", "401", "403", "404", "405", "409",
            "410", "418", "422", "429", "451", "499", "500", "501", "503", "504", "599", "600", "799", "999"]
RHEADERS = ["content-type", "x-one", "x-two", "set-cookie", "location", "cache-control", "etag", "server", "vary",
            "content-language", "x-powered-by", "www-authenticate", "link", "retry-after", "access-control-allow-origin"]
RVALUES = ["a", "b", "", "text/plain", "application/json", "0", "x=1; Path=/", "W/\"abc\"", "*", "a, b", "no-cache",
           "text/html; charset=utf-8", "~", "{}", "a\tb", "%20", "\u00e9", "\u65e5\u672c"]
VALUES += [v for v in harvest.header_values() if len(v) < 300 and "%d" not in v][:40]
ERRTEXTS += [t for t in harvest.TEXTS if len(t) < 390 and t[0] not in "@%"]
STATUSES += [str(n) for n in harvest.NUMBERS if 200 <= n <= 599 and n not in (204, 205, 304)]
RHEADERS += harvest.names()[:12]
RVALUES += [v for v in harvest.header_values() if len(v) < 300][:40]
BADVALUES = ["a\nb", "a\fb", "\n", "x\r\ny: z", "a\r", "\u65e5\n"]


NOJSON = ["", "{", "[", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,", "{\"a\":1}}", "{\"a\":1} x", "{\"a\":x}", "{\"a\":300}", "{\"a\":\"s\"}", "{\"a\":null}", "[1]", "1", "null", "nul", "\"s", "\"\\x\"", "{a:1}",
          "\n\n{", "{\"a\":1.5}", "{\"a\":1,\"a\":2}", "{\"a\":-}", "\u00e9", "{\"a\":[", "tru", " "]


class Names:
    def __init__(self):
        self.n = {}

    def __call__(self, k):
        self.n[k] = self.n.get(k, 0) + 1
        return "%s%d" % (k, self.n[k])


def value(r):
    v = r.choice(VALUES)
    return v % r.randrange(100) if "%d" in v else v


# ------------------------------------------------------------------ instructions
def att(r, types=TYPES):
    k = r.random()
    t = r.choice(types)
    if k < 0.32:
        return ["get", t]
    if k < 0.4:
        return ["ext", t]
    if k < 0.48:
        return ["put", t, "on" if t in UNITS else value(r)]
    if k < 0.56:
        return ["drop", t]
    if k < 0.8:
        return ["add", t, "on" if t in UNITS else value(r)]
    return ["mut", t, "on" if t in UNITS else value(r)]


# kinds of the standard library and the HTTP crates
STD = ["instant", "systime", "duration", "u32", "u64", "usize", "i32", "i64", "f64", "addr", "ip", "atomic", "method", "uri", "hdrmap", "hdrval", "map1", "map2", "map3", "btree", "set", "strings",
       "pairs", "wide", "str", "cow", "pathbuf", "boxstring", "arcstring", "arcmutex", "mutex", "result", "optarc", "two", "array", "value", "error", "any"]


def alias(r, sc, p=0.4):
    """Kinds of values stand for others: in the specification all are alike."""
    kinds = sc.setdefault("kinds", {})
    if r.random() < p:
        used = {i[1] for prog in sc["progs"].values() for i in prog if i[0] in ("get", "add", "mut", "put", "drop", "ext")}
        free = sorted(k for k in used if k not in kinds and k not in kinds.values() and k not in UNITS and k != "S")
        kinds.update(zip(free, r.sample([k for k in STD if k not in kinds.values()], min(len(free), len(STD) - len(kinds)))))
    return sc


STATES = ["unit", "big", "arc", "bytes", "opt", "string"]


def restate(r, sc, kind=None):
    """The application's state is of another type; the type it has otherwise takes that one's place."""
    kind = kind or r.choice(STATES)
    sc["kinds"] = {"S": kind, kind: "S"}
    if kind in UNITS:
        for op in sc["ops"]:
            if op["op"] == "state":
                op["h"] = "on"
        sc["progs"] = {who: [i[:2] + ["on"] if i[0] in ("add", "put", "mut") and i[1] == "S" else i for i in p] for who, p in sc["progs"].items()}
    return sc


def hdr(r):
    k = r.random()
    n = r.choice(HDRS if r.random() < 0.7 else SENT)
    if k < 0.35:
        return ["hdr", n]
    if k < 0.6:
        return ["hdrall", n]
    if k < 0.75:
        return ["sethdr", n, value(r) or "e"]
    if k < 0.85:
        return ["apphdr", n, value(r) or "e"]
    return ["delhdr", n]


def look(r, body=True):
    k = r.choice(["method", "path", "query", "param", "pint", "qp", "qp1", "hdr", "hdrall", "get"] +
                 (["take", "form", "json", "form1", "json1"] if body else []))
    if k in ("param", "pint"):
        return [k, r.choice(["p", "q", "nope"])]
    if k in ("hdr", "hdrall"):
        return [k, r.choice(HDRS if r.random() < 0.5 else SENT)]
    if k == "get":
        return [k, r.choice(TYPES)]
    return [k]


def body_text(r, big=False):
    x = r.random()
    if x < 0.15:
        return ""
    if big and x < 0.5:
        return "@%d:%d" % (r.choice([1, 79, 80, 399, 400, 401, 1000, 4095, 8192, 8193, 16384, 65535, 65536, 100000, 250000]), r.randrange(1000))
    if x < 0.6:
        return r.choice(["ok", "hello world", "{}", "[1,2]", "null", "<p>x</p>", "a=1&b=2", "0", " ", "  x  "])
    return "@%d:%d" % (r.choice([1, 2, 10, 60, 120]), r.randrange(1000))


def resp(r, rich=True, bad=0.0):
    hs = []
    if rich:
        pool = r.sample(RHEADERS, r.choice([1, 2, 3, 6]))
        if r.random() < 0.06:
            # many different names, with all kinds of numbers of them
            pool = RHEADERS + ["x-h%d" % k for k in range(60)]
        for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12]) if len(pool) < 60 else r.choice([16, 17, 24, 33, 50, 70])):
            n = r.choice(pool)
            # the value set last counts; one that is replaced must be sendable as well
            hs.append([n, r.choice(RVALUES)])
        if r.random() < bad:
            hs.append([r.choice(["x-bad", "x-one"]), r.choice(BADVALUES)])
    st = r.choice(STATUSES) if r.random() < 0.7 else "200"
    body = body_text(r, big=rich)
    if r.random() < 0.06:
        st, body = r.choice(["204", "304", "205"]), ""
    return ["resp", st, hs, body]


def err(r):
    return r.choice([["err", "boom-%d" % r.randrange(100)], ["err", r.choice(ERRTEXTS)], ["err", r.choice(ERRTEXTS)], ["errkind", r.choice(["param", "form", "json", "none", "general"]), "p%d" % r.randrange(9)],
                     ["errkind", "jsonparse", r.choice(NOJSON)], ["errkind", r.choice(["json", "form"]), r.choice(ERRTEXTS)],
                     ["errkind", r.choice(["none", "param", "general"]), r.choice(ERRTEXTS)], ["errif", "x-fail", "failed-%d" % r.randrange(9)],
                     ["err", "@%" + "x" * r.choice([1, 200, 390])]])


def touch(r, rich=True):
    """Changes to a response already there."""
    k = r.random()
    if k < 0.3:
        return [["setstatus", r.choice([s for s in STATUSES])]]
    if k < 0.65:
        return [["clearhdrs"]] if r.random() < 0.1 else [["pushhdr", r.choice(RHEADERS), r.choice(RVALUES)]]
    if k < 0.75:
        return [["noresp"]]
    if k < 0.9:
        return [resp(r, rich)]
    return [["seen"]]


def seq(r, n, f):
    return [f() for _ in range(r.randrange(n + 1))]


# ------------------------------------------------------------------ programs
class Style:
    """How programs look; probabilities of the things a program may do."""

    def __init__(self, r, **kw):
        self.r = r
        self.inner = lambda: ["seen"]
        self.early = self.fail = self.panic = self.late = self.recover = 0.0
        self.rich = False
        self.bad = 0.0
        self.touch = 0.0
        self.preset = 0.0
        self.noresp = 0.05
        self.gates = 0
        self.steps = 3
        self.echo = 0.0
        for k, v in kw.items():
            setattr(self, k, v)

    def mw(self):
        r = self.r
        pre = seq(r, self.steps, self.inner)
        x = r.random()
        if x < self.early:
            return pre + ([resp(r, self.rich)] if r.random() < 0.8 else []) + seq(r, 1, self.inner)
        x -= self.early
        if x < self.fail:
            return pre + [err(r)] + [["next", "pass"]]
        x -= self.fail
        if x < self.panic:
            return pre + [r.choice([["panic"], ["panicif", "x-fail"]])] + [["next", "pass"]]
        if r.random() < self.preset:
            pre.insert(r.randrange(len(pre) + 1), resp(r, self.rich))
        post = seq(r, self.steps, self.inner)
        if r.random() < self.touch:
            for _ in range(r.choice([1, 1, 2, 4])):
                post += touch(r, self.rich)
        pol = "recover" if r.random() < self.recover else r.choice(["pass", "pass", "wrap"])
        if r.random() < self.late:
            post.append(err(r))
        elif r.random() < self.panic / 3:
            post.append(["panic"])
        mid = [["next", pol]]
        if pol == "recover" and r.random() < 0.8:
            mid.append(["seen"])
        if r.random() < 0.5:
            mid.append(["seen"])
        return pre + mid + post

    def handler(self):
        r = self.r
        pre = seq(r, self.steps + 1, self.inner)
        x = r.random()
        if x < self.fail:
            return pre + [err(r)] + [resp(r, self.rich)]
        if x < self.fail + self.panic:
            return pre + [r.choice([["panic"], ["panicif", "x-fail"]]), resp(r, self.rich)]
        if r.random() < self.noresp:
            return pre
        if r.random() < self.echo:
            return pre + [["echo"]]
        return pre + [resp(r, self.rich, self.bad)] + seq(r, 1, self.inner)


PATHS = ["/", "/a", "/a/b", "/a/b/c", "/x/:p", "/x/:p/y", "/w/*", "/z", "/x/:p/y/:q"]
METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE"]


def application(r, style, nmw=(0, 4), nroute=(1, 4), mounts=0.25, bare=0.15):
    """Operations and programs."""
    ids = Names()
    progs = {}
    base = r.sample(PATHS, min(len(PATHS), r.randint(*nroute)))
    used = set()

    def prefixes(p):
        segs = [s for s in p.split("/") if s]
        return ["/" + "/".join(segs[:k]) for k in range(len(segs) + 1)]

    def routes(paths):
        out = []
        for p in paths:
            for m in r.sample(METHODS, r.choice([1, 1, 1, 2])):
                h = ids("h")
                if r.random() >= bare:
                    progs[h] = style.handler()
                out.append({"op": "route", "path": p, "m": m, "h": h})
                used.add((p, m))
        return out

    def mws(paths, n):
        out = []
        for _ in range(n):
            h = ids("m")
            if r.random() >= bare:
                progs[h] = style.mw()
            p = r.choice([q for t in paths for q in prefixes(t)] + ["/"])
            if p == "/" and r.random() < 0.7:
                out.append({"op": "mwroot", "h": h})
            else:
                out.append({"op": "mw", "path": p, "h": h})
        return out

    ops = routes(base) + mws(base, r.randint(*nmw))
    r.shuffle(ops)
    if r.random() < mounts:
        inner = r.sample(PATHS, r.randint(1, 2))
        sub = routes(inner) + mws(inner, r.randint(0, 2))
        r.shuffle(sub)
        at = r.choice(["/m", "/n/o"])
        if r.random() < 0.4:
            ops.insert(r.randrange(len(ops) + 1), {"op": "scope", "path": at[1:], "ops": sub})
        else:
            ops.insert(r.randrange(len(ops) + 1), {"op": "mount", "path": at, "ops": sub, "default": False, "clone": r.random() < 0.3})
        base = base + [at + (q if q != "/" else "") for q in inner]
    return ops, progs, base, used


def routes_of(ops, prefix=""):
    out = []
    for op in ops:
        if op["op"] == "route":
            p = prefix + op["path"] if op["path"] != "/" or not prefix else prefix
            out.append((op["m"], p))
        elif op["op"] in ("mount", "scope"):
            out += routes_of(op["ops"], prefix + ("/" + op["path"] if op["op"] == "scope" else op["path"]))
    return out


QUERIES = ["", "", "", "a=1", "a=1&b=2&a=3", "q=x%20y", "q=x+y&r=", "?", "a=%C3%A9", "&&", "=v", "b=%41&b=2", "flag", "a=1;b=2"]
BODIES = ["", "", "a=1", "a=1", "a=x", "a=1&b=x", "b=2&a=3", "{\"a\":\"x\"}", "{\"a\":12}", "%613dff", "%7b2261223affff7d", "%ff", "{\"a\":1.5}",  "a=1&a=2&b=%20", "{}", "{\"a\":1}", "[1,\"x\",null]", "12", "nothing", "a=", "\"text\"", "{\"a\":", "a=b=c&+=1"]

QUERIES += [q for t in [harvest_uri for harvest_uri in harvest.TEXTS[:20] if harvest_uri.isascii() and harvest_uri.replace("-", "").replace("_", "").isalnum()] for q in (t, "a=" + t, t + "=1")]


def request(r, rid, ops, conn="c", bodies=0.4, big=False, fail=0.15, tags=0.5):
    rs = routes_of(ops)
    if rs and r.random() < 0.93:
        m, p = r.choice(rs)
    else:
        m, p = r.choice(METHODS), r.choice(["/none", "/a/none", "/"])
    segs = []
    for s in p.split("/"):
        if s.startswith(":"):
            segs.append(r.choice(["1", "v-%d" % r.randrange(50), "x%20y", "p", "long" * 20, "12", "21", "ab", "ba", "a-b", "b-a",
                                  "123", "231", "-7", "+7", "1.5", "12.0", "12;", "0x1", "2147483647", "2147483648", "007", "1e3", "12,"]))
        elif s == "*":
            segs.append(r.choice(["r", "r/s", "r/s/t"]))
        else:
            segs.append(s)
        if s.startswith(":") and r.random() < 0.03:
            segs[-1] = "n" * r.choice([200, 255, 256, 257, 700])
    path = "/".join(segs) or "/"
    if r.random() < 0.08:
        path += "/"
    q = r.choice(QUERIES)
    if r.random() < 0.08:
        q = "a=%s&b=%s" % ("".join(r.choice("abcdef019") for _ in range(r.choice([57, 62, 64, 66, 125, 256, 300]))), rid)
    target = path + ("?" + q if q else "")
    hs = []
    if r.random() < tags:
        hs.append(["x-tag", "tag-%s" % rid])
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        n = r.choice(["x-a", "x-b", "accept", "x-multi", "x-multi", "X-A", "X-Multi", "X-oTher"])
        hs.append([n, value(r)])
    if r.random() < fail:
        hs.append(["x-fail", "yes"])
    hs += noise(r)
    if r.random() < 0.02:
        hs += [["x-many-%d" % k, "v" * r.choice([1, 100])] for k in range(r.choice([20, 40, 60]))]
    if r.random() < 0.05:
        target = r.choice(["http://localhost", "http://example.com:8080", "http://[::1]"]) + target
    st = {"s": "req", "r": rid, "c": conn, "method": m, "target": target, "headers": hs}
    if r.random() < 0.04:
        st["version"] = "HTTP/1.0"
    if r.random() < bodies:
        st["body"] = r.choice(BODIES)
        if big and r.random() < 0.3:
            st["body"] = "@%d:%d" % (r.choice([500, 8192, 20000, 70000, 200000]), r.randrange(1000))
        st["cl"] = True
        n = len(common.expand(st["body"]))
        if n and r.random() < 0.3:
            st.pop("version", None)
            k = r.choice([1, 2, 3])
            sizes = [max(1, n // (k + 1))] * k
            st["chunks"] = sizes
    return st


def near(r, target):
    """A target that differs little: letters exchanged, of the same length, or another query only."""
    start = target.index("/", 7) if target.startswith("http://") else 0
    host, rest = target[:start], target[start:]
    path, _, q = rest.partition("?")
    k = r.randrange(6)
    if k == 0 or path == "/":
        return host + path + "?" + r.choice(["a=1", "a=2", "b=1", "a=1&b=2", "b=2&a=1"])
    segs = path.split("/")
    i = r.randrange(1, len(segs))
    s = segs[i]
    if "%" not in s and len(s) > 1 and k in (1, 2):
        j = r.randrange(len(s) - 1)
        segs[i] = s[:j] + s[j + 1] + s[j] + s[j + 2:]
    elif s and "%" not in s and k == 3:
        segs[i] = r.choice("abxy12") + s[1:]
    elif k == 4:
        segs[i] = s + r.choice("a1")
    elif k == 5 and len(segs) > 2:
        j = r.randrange(1, len(segs))
        segs[i], segs[j] = segs[j], segs[i]
    return host + ("/".join(segs) or "/") + ("?" + q if q else "")


# ------------------------------------------------------------------ traces
def reg_lines(ops, outcomes, mode):
    it = iter(outcomes)
    lines = []
    if mode == "default":
        lines.append(dict(BLANK, e="mw", path="/", h="!logger", ok="ok"))

    def go(ops):
        for op in ops:
            k = op["op"]
            if k in ("mount", "scope"):
                assert next(it) == "open"
                lines.append(dict(BLANK, e="open"))
                go(op["ops"])
                lines.append(dict(BLANK, e="mount", path=op["path"] if k == "mount" else "/" + op["path"], ok=next(it)))
            elif k == "route":
                lines.append(dict(BLANK, e="route", path=op["path"], m=op["m"], h=op["h"], ok=next(it)))
            elif k == "mw":
                lines.append(dict(BLANK, e="mw", path=op["path"], h=op["h"], ok=next(it)))
            elif k == "mwroot":
                lines.append(dict(BLANK, e="mw", path="/", h=op["h"], ok=next(it)))
            elif k == "logger":
                lines.append(dict(BLANK, e="mw", path="/", h="!logger", ok=next(it)))
            elif k == "loggerto":
                lines.append(dict(BLANK, e="mw", path=op["path"], h="!logger", ok=next(it)))
            elif k == "state":
                next(it)
                lines.append({"e": "state", "h": common.esc(op["h"])})
            else:
                next(it)

    go(ops)
    return lines


LONG = 3000   # longer texts are recorded by length and hash


def token(t):
    return "long-" + common.summary(t).replace(":", "-")


def spec_prog(p, texts=()):
    said = {(k, t): x for k, t, x in texts}
    out = []
    for ins in p:
        if ins[0] in ("err", "errkind", "errif") and len(ins[-1]) > LONG:
            ins = ins[:-1] + [token(ins[-1])]
        if ins[0] == "errkind" and ins[1] not in ("param", "general"):
            # how what these errors carry prints is its own business
            ins = ["errkind", ins[1].replace("jsonparse", "json"), said[ins[1], ins[2]]]
        if ins[0] in ("err", "errkind", "errif", "add", "put", "mut", "sethdr", "apphdr"):
            ins = ins[:-1] + [common.esc(ins[-1])]
        if ins[0] == "resp":
            ins = ["resp", ins[1], ins[2], common.summary(common.expand(ins[3]))]
        out.append(ins)
    return out


def all_requests(steps):
    out = {}
    for st in steps:
        if st["s"] in ("req", "send"):
            out[st["r"]] = st
        elif st["s"] == "burst":
            for q in st["reqs"]:
                out[q["r"]] = q
    return out


def sent_line(st, conn):
    target = st["target"]
    if target.startswith("http://"):
        target = target[target.index("/", 7):]
    path, _, q = target.partition("?")
    has = "?" in target
    hdrs = [["host", "localhost"], ["x-rid", st["r"]]] + [[n.lower(), common.esc(common.expand(v))] for n, v in st.get("headers", [])]
    b = common.expand(st.get("body", ""))
    if "chunks" in st:
        hdrs.append(["transfer-encoding", "chunked"])
    elif b or st.get("cl"):
        hdrs.append(["content-length", str(len(b))])
    return {"e": "sent", "r": st["r"], "c": conn, "m": st["method"], "path": common.esc(path), "query": "=" + common.esc(q) if has else "-",
            "q": list(q.encode()), "hdrs": hdrs, "b": list(b) if len(b) <= 450 else [], "bsum": common.summary(b)}


def block(sc, res, twin="-"):
    if res.get("abandoned"):
        return []
    lines = [dict(BLANK, e="app", h=twin)]
    lines += reg_lines(sc["ops"], res["outcomes"], sc.get("mode"))
    for who, p in sc["progs"].items():
        lines.append({"e": "prog", "h": who, "prog": spec_prog(p, res["error_texts"])})
    reqs = all_requests(sc["steps"])
    # long error texts under a short name, in the programs and in what was recorded alike
    named = {common.summary(i[-1]): "t:" + token(i[-1]) for p in sc["progs"].values() for i in p
             if i[0] in ("err", "errkind", "errif") and len(i[-1]) > LONG}
    for ev in res["events"]:
        e = ev["e"]
        for was, name in named.items():
            for f in ("res", "body"):
                if f in ev:
                    ev = dict(ev, **{f: ev[f].replace(was, name)})
        if ev.get("r") == "?":
            continue  # from bytes sent with step "raw"
        if e == "send":
            lines.append(sent_line(reqs[ev["r"]], ev["c"]))
        elif e in ("enter", "handler", "panic"):
            lines.append({"e": "ev", "r": ev["r"], "k": e, "who": ev["who"], "a": "", "v": ""})
        elif e in ("leave", "back", "done"):
            lines.append({"e": "ev", "r": ev["r"], "k": e, "who": ev["who"], "a": "", "v": ev["res"]})
        elif e == "obs":
            lines.append({"e": "ev", "r": ev["r"], "k": "obs", "who": ev["who"], "a": ev["k"], "v": ev["v"]})
        elif e in ("gate", "resumed"):
            lines.append({"e": "ev", "r": ev["r"], "k": e, "who": ev["who"], "a": ev["g"], "v": ""})
        elif e == "go":
            lines.append({"e": "go", "r": ev["r"], "a": ev["g"]})
        elif e == "answer":
            lines.append({"e": "answer", "r": ev["r"], "status": ev["status"], "headers": ev["headers"], "body": ev["body"]})
        elif e == "lost":
            lines.append({"e": "lost", "r": ev["r"], "why": ev["why"]})
        elif e == "stuck":
            lines.append({"e": "stuck", "r": ev["r"]})
        elif e == "surplus":
            lines.append({"e": "surplus", "v": ev["v"]})
        elif e == "close":
            lines.append({"e": "closed", "c": ev["c"]})
        elif e in ("end", "noconnect"):
            pass
        else:
            raise common.ToolError("unknown event %s" % e)
    lines.append({"e": "over"})
    return lines
