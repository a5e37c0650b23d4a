"""Random programs that build responses. They are written as spec/ResponseOps.tla reads them;
`for_executor` translates them for the executor. No expectation is computed here."""
import common

TEXTS = ["", "a", "hello world", "<p>x</p>", "{\"a\":1}", "0", " ", "\u00e9t\u00e9", "\u65e5\u672c\u8a9e", "\U0001f600", "line\nline", "tab\t\"q\" \\",
         "\u0000", "null", "404", "true"]
STATUSES = ["200", "201", "202", "203", "206", "299", "301", "302", "307", "400", "401", "403", "404", "405", "409", "418", "422", "451",
            "499", "500", "501", "503", "599"]
ODD = ["100", "101", "204", "205", "304", "600", "999"]
NAMES = ["x-a", "x-b", "x-c", "content-type", "content-type", "set-cookie", "etag", "location", "cache-control"]
VALUES = ["1", "2", "a b", "x=1; Path=/", "", "text/html", "text/plain; charset=utf-8", "application/json", "*/*", "W/\"z\"", "%41", "\u00e9", "~", "a,b"]
STRUCT = ["str", "int", "true", "false", "null", "float", "arr", "obj"]


def text(r, big=0.05, kinds="sS"):
    x = r.random()
    if x < big:
        t = "@%d:%d" % (r.choice([401, 1000, 8192, 20000, 70000]), r.randrange(1000))
        return {"k": "text", "s": common.summary(common.expand(t)), "x": t, "lit": "@"}
    if x < 0.6:
        t = r.choice(TEXTS)
    else:
        t = "".join(r.choice("abcdefgh <>&\"'{}[]:,0123456789\u00e9\u4e16") for _ in range(r.randrange(60)))
    return {"k": "text", "s": common.summary(t), "x": t, "lit": r.choice(kinds)}


def body(r, big=0.05):
    x = r.random()
    if x < 0.72:
        return text(r, big)
    if x < 0.84:
        return {"k": "unit"}
    n = r.choice([0, 1, 2, 3, 10, 100])
    return {"k": "bytes", "n": [r.choice([0, 9, 10, 99, 100, 255, r.randrange(256)]) for _ in range(n)]}


def V(k, b=b"", xs=(), ns=()):
    return {"k": k, "b": list(b), "xs": list(xs), "ns": [list(n) for n in ns]}


def term(r, depth=3, fail=0.0):
    if r.random() < fail:
        return V("fail", r.choice([b"", b"\1"]))
    k = r.choice(STRUCT if depth else STRUCT[:6])
    if k == "str":
        return V("str", text(r, 0)["x"].encode())
    if k == "int":
        return V("int", str(r.choice([0, 1, -1, 7, 255, -128, 65536, 2**31, -2**31, 2**63 - 1, -2**63, 2**64 - 1, r.randrange(10**6)])).encode())
    if k == "float":
        return V("float", r.choice([b"0.5", b"-1.25", b"1e300", b"3.0"]))
    if k == "arr":
        return V("arr", xs=[term(r, depth - 1, fail) for _ in range(r.choice([0, 1, 2, 3, 6]))])
    if k == "obj":
        ns = r.sample(["", "a", "b", "id", "\u00e9", "x y", "\"", "A"], r.choice([0, 1, 2, 4]))
        return V("obj", xs=[term(r, depth - 1, fail) for _ in ns], ns=[n.encode() for n in ns])
    return V(k)


def status(r, odd):
    return r.choice(ODD) if r.random() < odd else r.choice(STATUSES)


def pairs(r, caps=False):
    return [[r.choice(NAMES), r.choice(VALUES)] for _ in range(r.choice([0, 1, 1, 2, 3, 8]))]


def start(r, files, odd=0.0, big=0.05, fail=0.1, kinds=None):
    k = r.choice(kinds or ["new", "new", "ok", "created", "ise", "respond", "respond", "status", "pair", "some", "none", "rstatus", "rheader",
                           "rheaders", "rheaders_str", "ctx_respond", "ctx_status", "ctx_pair", "ctx_some", "ctx_none", "ctx_json", "ctx_json",
                           "ctx_file"])
    if k in ("ok", "created", "ise"):
        return [k]
    if k in ("none", "ctx_none"):
        return [k, r.choice("sS")]
    if k in ("new", "respond", "ctx_respond"):
        return [k, body(r, big)]
    if k in ("status", "ctx_status"):
        return [k, status(r, odd)]
    if k in ("pair", "ctx_pair"):
        return [k, status(r, odd), body(r, big)]
    if k in ("some", "ctx_some"):
        return [k, text(r, 0)]
    if k == "rstatus":
        return [k, body(r, big), status(r, odd)]
    if k == "rheader":
        return [k, body(r, big), r.choice(NAMES), r.choice(VALUES)]
    if k in ("rheaders", "rheaders_str"):
        return [k, body(r, big), pairs(r)]
    if k == "ctx_json":
        return [k, term(r, r.choice([0, 1, 3]), fail if r.random() < 0.5 else 0)]
    return [k, r.choice(files + ["missing.txt"])]


RESP = ["set_status", "with_status", "status_mut", "set_body", "set_body", "set_header", "with_header", "set_header_str", "with_header_str",
        "set_content_type", "set_headers", "with_headers", "set_headers_str", "with_headers_str", "push_header", "html", "json", "json", "file",
        "respond_again", "ctx"]
BUILDER = ["with_status", "with_header", "with_header_str", "with_headers", "with_headers_str"]


def op(r, pool, files, odd=0.0, big=0.05, fail=0.1):
    k = r.choice(pool)
    if k in ("set_status", "with_status", "status_mut"):
        return [k, status(r, odd)]
    if k in ("set_body", "html"):
        return [k, body(r, big)]
    if k in ("set_header", "with_header", "set_header_str", "with_header_str", "push_header"):
        return [k, r.choice(NAMES), r.choice(VALUES)]
    if k == "set_content_type":
        return [k, r.choice(["text/css", "text/html", "a/b", "application/json"])]
    if k == "json":
        return [k, term(r, r.choice([0, 1, 2]), fail if r.random() < 0.4 else 0)]
    if k == "file":
        return [k, r.choice(files + ["missing.txt"])]
    if k in ("respond_again", "ctx"):
        return [k]
    return [k, pairs(r)]


def program(r, files, n, odd=0.0, big=0.05, fail=0.1, context=None):
    p = [start(r, files, odd, big, fail)]
    for _ in range(n):
        inside = any(o[0].startswith("ctx") for o in p)
        pool = BUILDER if inside else (RESP if r.random() < 0.7 else [k for k in RESP if k != "ctx"])
        p.append(op(r, pool, files, odd, big, fail))
    return p


# ------------------------------------------------------------------ for the executor
def body_x(b):
    if b["k"] == "unit":
        return "u:"
    if b["k"] == "bytes":
        return "b:" + bytes(b["n"]).hex()
    x = b["x"] if "x" in b else b["s"][2:]
    lit = b.get("lit", "s")
    return ("@:" if lit == "@" else lit + ":") + x


def text_x(b):
    return b["x"] if "x" in b else b["s"][2:]


def term_x(v):
    k = v["k"]
    if k == "fail":
        return {"$badmap": 1} if v["b"] else {"$fail": "no"}
    if k == "str":
        return bytes(v["b"]).decode()
    if k == "int":
        return int(bytes(v["b"]))
    if k == "float":
        return float(bytes(v["b"]))
    if k == "arr":
        return [term_x(x) for x in v["xs"]]
    if k == "obj":
        return {"$obj": [[bytes(n).decode(), term_x(x)] for n, x in zip(v["ns"], v["xs"])]}
    return {"true": True, "false": False, "null": None}[k]


def for_executor(prog, r):
    out = []
    for o in prog:
        k = o[0]
        a = o[1:]
        if k in ("new", "respond", "ctx_respond", "set_body", "html"):
            a = [body_x(a[0])]
        elif k in ("rstatus", "rheader", "rheaders", "rheaders_str"):
            a = [body_x(a[0])] + a[1:]
        elif k in ("pair", "ctx_pair"):
            a = [a[0], body_x(a[1])]
        elif k in ("some", "ctx_some"):
            a = [a[0].get("lit", "S"), text_x(a[0])]
        elif k in ("none", "ctx_none"):
            a = [a[0] if a else "S"]
        elif k in ("ctx_json", "json"):
            a = [term_x(a[0])]
        if k.endswith("_str"):   # names given as text may have capitals; a header's name has none
            cap = lambda n: n.title() if r.random() < 0.3 else n
            if k in ("set_header_str", "with_header_str"):
                a = [cap(a[0]), a[1]]
            else:
                a = a[:-1] + [[[cap(n), v] for n, v in a[-1]]]
        out.append([k] + a)
    return out


def for_spec(prog):
    """Without what only the executor needs."""
    def strip(x):
        if isinstance(x, dict) and x.get("k") == "text":
            return {"k": "text", "s": x["s"]}
        return x
    return [[strip(x) for x in o] for o in prog]
