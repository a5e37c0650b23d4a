"""Random forms, queries, field maps, JSON texts and path parameters, with targets to decode into.
What they should give is computed by the specification only."""
import json

import harvest

INTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"]
BITS = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64)}
NAMES = ["a", "b", "c", "id", "mode", "ab", "A", "name", "x-y", "z[]", "é", "a b", "a.b", "0", "long_field_name_with_many_characters_in_it",
         "", "日", "a&b", "k=v", "%41", "a+b"]


def scalar(r):
    x = r.random()
    if x < 0.45:
        return {"t": r.choice(INTS)}
    if x < 0.7:
        return {"t": "string"}
    if x < 0.82:
        return {"t": "bool"}
    if x < 0.94:
        return {"t": "char"}
    return {"t": "u8"}


def shape(r, depth=2):
    x = r.random()
    if depth == 0 or x < 0.4:
        return scalar(r)
    if x < 0.62:
        return {"t": "list", "s": shape(r, depth - 1)}
    if x < 0.82:
        return {"t": "opt", "s": shape(r, depth - 1)}
    if x < 0.92:
        return {"t": "tuple", "ss": [shape(r, depth - 1) for _ in range(r.choice([1, 2, 2, 3]))]}
    return {"t": "new", "s": shape(r, depth - 1)}


def plain_shape(r):
    """The everyday kinds: single, list, optional."""
    s = scalar(r)
    x = r.random()
    if x < 0.4:
        return s
    if x < 0.7:
        return {"t": "list", "s": s}
    return {"t": "opt", "s": s if r.random() < 0.7 else {"t": "list", "s": s}}


def target(r, plain=False, names=NAMES):
    x = r.random()
    if x < 0.08:
        return {"t": "map", "s": {"t": "list", "s": scalar(r)}}
    if x < 0.13:
        return {"t": "map", "s": scalar(r)}
    if x < 0.2:
        return dict(DERIVED[r.choice(list(DERIVED))])
    ns = r.sample(names, r.choice([1, 1, 2, 2, 3, 4, 6]))
    fields = [{"n": n, "s": plain_shape(r) if plain else shape(r), "d": r.random() < 0.2} for n in ns]
    return {"t": "struct", "fields": fields}


def _s(*fields):
    return {"t": "struct", "fields": [{"n": n, "s": s, "d": False} for n, s in fields]}


def T(t):
    return {"t": t}


def L(s):
    return {"t": "list", "s": s}


def O(s):
    return {"t": "opt", "s": s}


DERIVED = {
    "Plain": dict(_s(("id", T("i32")), ("mode", T("string"))), k="Plain"),
    "Lists": dict(_s(("a", L(T("i32"))), ("b", L(T("string"))), ("c", T("i32"))), k="Lists"),
    "Opts": dict(_s(("a", O(T("i32"))), ("b", O(T("string"))), ("c", O(L(T("bool")))), ("d", T("u8"))), k="Opts"),
    "Pairs": dict(_s(("a", {"t": "tuple", "ss": [T("i32"), T("string")]}),
                     ("b", L({"t": "tuple", "ss": [T("u8"), T("u8")]})),
                     ("w", {"t": "new", "s": T("i32")}), ("ch", T("char")), ("bo", T("bool"))), k="Pairs"),
    "MapList": {"t": "map", "s": L(T("string")), "k": "MapList"},
    "MapOne": {"t": "map", "s": T("string"), "k": "MapOne"},
}

WORDS = ["a", "abc", "hello world", "1", "0", "x=y", "a&b", "50%", "%41", "é", "日本", "𝒳", "a+b", "true", "False", "ß", "\n", "tab\t", "\"q\"",
         "/path/?x", ";", "0x1f", "null", "none", " ", "  lead", "trail ", ",", "1,2", "[1]", "\u0000", "\u007f", "ﬀ", "e\u0301", "%", "%%", "%2", "%zz", "+"]


# texts that someone might take for something else
MAGIC = ["undefined", "null", "none", "None", "nil", "NULL", "NaN", "nan", "inf", "-inf", "Infinity", "on", "off", "yes", "no", "y", "n", "t", "f", "T", "F", "TRUE",
         "True", "FALSE", "False", "-", "--", "?", "N/A", "n/a", "#", "*", "~", "0x10", "0b1", "0o7", "1e3", "1E3", "1.0", "1.", ".5", "1,000", "1_000", "1 000", "١", "one", "zero", "auto",
         "default", "any", "all", "[]", "{}", "()", "''", "\"\"", "[object Object]", "unknown", "empty", "missing", "blank", "nothing", "void", "unset", "EMPTY", "(null)", "<null>", "\\N",
         "\u200b", "\ufeff1", "1\ufeff", "\u00a01", "0", "00", "-0", "+0", "+1", "1-", "10%", "$1", "1h", "ok", "enabled", "disabled", "x", "-1", "255", "256", "true,false"]

MAGIC = list(dict.fromkeys(MAGIC + [t for t in harvest.TEXTS if len(t) < 80] + [str(n + d) for n in harvest.NUMBERS for d in (-1, 0, 1)]))
NAMES = NAMES + harvest.TEXTS[:8] + ["n" * n for n in harvest.sizes(300)[:4]]

PUNCT = [c for c in map(chr, range(1, 128)) if not c.isalnum()] + ["||", "&&", "::", "->", "=>", "..", "...", "--", ", ", "; ", "\r\n", "\u00a0", "\u3001", "\uff0c", "\u200b"]


def around(c, x="x", y="y"):
    """Texts in which this punctuation might be taken for a separator, a bracket or an ending."""
    e = {"[": "]", "(": ")", "{": "}", "<": ">"}.get(c, c)
    return [c, c + c, x + c + y, x + c + c + y, x + c + y + c + x, c + x, x + c, c + x + e, c + x + "," + y + e, c + x + e + c + y + e]


def bound(t, r):
    signed, bits = BITS[t]
    lo = -(1 << (bits - 1)) if signed else 0
    hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    return lo, hi


def int_text(t, r, good):
    if not good and r.random() < 0.15:
        return r.choice(MAGIC)
    lo, hi = bound(t, r)
    if good:
        x = r.random()
        n = r.choice([lo, hi, lo + 1, hi - 1, 0, 1, r.randint(lo, hi), r.randint(lo, hi), min(hi, 42), max(lo, -7)])
        s = str(n)
        if x < 0.1 and n >= 0:
            s = "+" + s
        elif x < 0.25:
            s = s.replace("-", "-0" * r.choice([1, 1, 5])) if n < 0 else "0" * r.choice([1, 2, 30]) + s
        return s
    k = r.randrange(14)
    if k == 0:
        return str(hi + r.choice([1, 2, 10, 1 << 64]))
    if k == 1:
        return str(lo - r.choice([1, 2, 10]))
    if k == 2:
        return str(r.randint(0, 99)) + r.choice(["x", " ", ".0", "e1", "_0", "é", ",5", "\n", "u8", "-"])
    if k == 3:
        return r.choice([" ", "\t", "+-", "--", "0x", "٣", "x", "'", "$"]) + str(r.randint(0, 99))
    if k == 4:
        return r.choice(["-", "+", "--1", "+-1", "1-1", "- 1", "0x10", "1e3", "1.0", "٤", "１２", "½", "NaN", "true", ""])
    if k == 5:
        return str(hi) + "0"
    if k == 6:
        return str(hi + (1 << BITS[t][1]))
    if k == 7:
        return "-0"
    if k == 8:
        return str(r.randint(0, 1 << 130))
    if k == 9:
        return "-" + str(r.randint(1, 1 << 70))
    if k == 10:
        return "9" * r.choice([3, 5, 10, 20, 21, 40, 100])
    return str(r.randint(-300, 300))


def value(s, r, good=0.8):
    t = s["t"]
    ok = r.random() < good
    if t in BITS:
        return int_text(t, r, ok)
    if t == "bool":
        return r.choice(["true", "false"]) if ok else r.choice(["True", "FALSE", "1", "0", "yes", "on", "t", "tru", "truee", " true", "true ", "false\n", "", "off", "nope"])
    if t == "char":
        return r.choice(["a", "é", "日", "𝒳", "+", "&", "%", " ", "1", "\n", "\u0301"]) if ok else r.choice(["ab", "", "éa", "日本", "aé", "𝒳𝒳", "e\u0301", "a ", " a", "abc"])
    if t in ("f32", "f64"):
        return r.choice(["1.5", "-0.25", "100", "3.75", "0.5", "-12", "1234.5", "0"]) if ok else r.choice(["1,5", "abc def", "1:0", "", "é", "1 ", " 1", "0x 1"])
    if t == "string":
        x = r.random()
        if x < 0.1:
            return r.choice(MAGIC)
        if x < 0.6:
            return r.choice(WORDS)
        return "".join(r.choice("abcXYZ019 +%&=;é日") for _ in range(r.choice([1, 2, 5, 20, 60])))
    return ""


def values(s, r, good=0.8):
    """Values for one name, fitting the shape most of the time."""
    t = s["t"]
    if t in ("opt", "new"):
        if t == "opt" and r.random() < 0.3:
            return []
        return values(s["s"], r, good)
    if t == "list":
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 3, 5, 8])):
            out += values(s["s"], r, good) or ([value(T("u8"), r)] if r.random() < 0.1 else [])
        return out
    if t == "tuple":
        out = []
        for q in s["ss"]:
            out += values(q, r, good)
        if r.random() < 0.12:
            out = out[:-1] if r.random() < 0.5 else out + [r.choice(["1", "x"])]
        return out
    n = 1 if r.random() < 0.75 else r.choice([0, 2, 2, 3] + harvest.sizes(40))
    return [value(s, r, good) for _ in range(n)]


def spell(text, r, style):
    out = bytearray()
    for x in text.encode():
        safe = 0x30 <= x <= 0x39 or 0x41 <= x <= 0x5A or 0x61 <= x <= 0x7A
        if style == "min":
            if x == 0x20:
                out += b"+"
            elif safe or x in b"-._~":
                out.append(x)
            else:
                out += b"%%%02X" % x
        elif style == "all":
            out += b"%%%02x" % x
        elif style == "mix":
            k = r.random()
            if safe and k < 0.7:
                out.append(x)
            elif x == 0x20 and k < 0.5:
                out += b"+"
            else:
                out += (b"%%%02x" if k < 0.85 else b"%%%02X") % x
        else:  # raw as far as possible
            if x in b"&=%+":
                out += b"%%%02X" % x
            else:
                out.append(x)
    return bytes(out)


def pairs_for(sh, r, good=0.8):
    """Names and values, in an order that keeps each name's values in order."""
    per = []
    if sh["t"] == "map":
        for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 5])):
            per.append((n, values(sh["s"], r, good)))
    else:
        for f in sh["fields"]:
            if r.random() < 0.06:
                continue
            vs = values(f["s"], r, good)
            per.append((f["n"], vs))
        if r.random() < 0.4:
            known = [f["n"] for f in sh["fields"]]
            for n in r.sample(NAMES + ["junk", "a1", "id2", "Id", "mod"], r.choice([1, 1, 2, 4])):
                if n not in known:
                    per.append((n, [r.choice(WORDS + ["", "5"]) for _ in range(r.choice([1, 1, 2]))]))
    queues = [[n, list(vs)] for n, vs in per if vs]
    out = []
    inter = r.random() < 0.6
    while queues:
        q = r.choice(queues) if inter else queues[0]
        out.append((q[0], q[1].pop(0)))
        if not q[1]:
            queues.remove(q)
    # empty values count as absent; superfluous separators
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        out.insert(r.randrange(len(out) + 1), (r.choice([n for n, _ in per] or ["a"]), ""))
    return out


def encode(pairs, r, style=None):
    style = style or r.choice(["min", "min", "all", "mix", "mix", "raw"])
    parts = []
    for n, v in pairs:
        if v == "" and r.random() < 0.4:
            parts.append(spell(n, r, style))
        else:
            parts.append(spell(n, r, style) + b"=" + spell(v, r, style))
        if r.random() < 0.05:
            parts.append(b"")
    b = b"&".join(parts)
    if r.random() < 0.05:
        b = r.choice([b"&", b"&&", b"="]) + b
    if r.random() < 0.05:
        b = b + r.choice([b"&", b"&&"])
    return b


def spoil(b, r):
    """Byte noise."""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 5])):
        k = r.randrange(6)
        i = r.randrange(len(b) + 1)
        if k == 0:
            b[i:i] = bytes([r.choice([0x25, 0x26, 0x3D, 0x2B, 0xFF, 0xC3, 0xE2, 0x80, 0x00, 0x0A, 0x20, 0x3B, 0xF0, 0xED])])
        elif k == 1 and b:
            del b[min(i, len(b) - 1)]
        elif k == 2:
            b[i:i] = r.choice([b"%", b"%4", b"%zz", b"%C3", b"%E2%82", b"%F0%9F", b"%ED%A0%80", b"%00", b"%FF%FE", b"==", b"&=&", b"%25", b"%2B", b"%26", b"%3D", b"%C0%80"])
        elif k == 3:
            del b[i:]
        elif k == 4 and b:
            j = min(i, len(b) - 1)
            b[j] = r.randrange(256)
    return bytes(b)


def uri_safe(b):
    """Keep only what may stand raw in the query part of a request line."""
    out = bytearray()
    for x in b:
        if x in b' "<>#' or x < 0x21 or x >= 0x7F:
            out += b"%%%02X" % x
        else:
            out.append(x)
    return bytes(out)


# ------------------------------------------------------------------ JSON
def jvalue(s, r, good=0.85):
    t = s["t"]
    ok = r.random() < good
    if not ok and r.random() < 0.5:
        return jany(r, 1)
    if t in BITS:
        if r.random() < 0.12:
            return r.choice([Raw("1.0"), Raw("1e2"), "5", True, None, Raw("-0"), Raw("0.5"), [1], Obj([])])
        lo, hi = bound(t, r)
        n = r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(lo, hi)])
        return n if ok else r.choice([hi + 1, lo - 1, n, 1 << 64, -(1 << 63) - 1])
    if t == "bool":
        return r.choice([True, False]) if ok else r.choice(["true", 1, 0, None, "True"])
    if t == "char":
        return value(s, r, good)
    if t == "string":
        return value(s, r, 1) if ok else r.choice([1, None, True, []])
    if t == "unit":
        return None if ok else r.choice([0, "", []])
    if t == "opt":
        return None if r.random() < 0.35 else jvalue(s["s"], r, good)
    if t == "new":
        return jvalue(s["s"], r, good)
    if t == "list":
        return [jvalue(s["s"], r, good) for _ in range(r.choice([0, 1, 2, 3, 6]))]
    if t == "tuple":
        xs = [jvalue(q, r, good) for q in s["ss"]]
        if r.random() < 0.15:
            xs = xs[:-1] if r.random() < 0.5 else xs + [1]
        return xs
    if t == "map":
        return Obj([(n, jvalue(s["s"], r, good)) for n in r.sample(NAMES, r.choice([0, 1, 2, 4]))])
    if t == "struct":
        ms = []
        for f in s["fields"]:
            if r.random() < 0.1:
                continue
            ms.append((f["n"], jvalue(f["s"], r, good)))
        if r.random() < 0.06 and ms:
            ms.append(r.choice(ms))
        known = [f["n"] for f in s["fields"]]
        for _ in range(r.choice([0, 0, 1, 2])):
            n = r.choice(NAMES + ["junk", "zz"])
            if n not in known:
                ms.append((n, jany(r, 2)))
        r.shuffle(ms)
        return Obj(ms)
    raise ValueError(t)


class Raw:
    def __init__(self, t):
        self.t = t


class Obj:
    def __init__(self, ms):
        self.ms = ms


def jany(r, depth=3):
    x = r.random()
    if depth == 0 or x < 0.5:
        return r.choice([None, True, False, 0, 1, -1, 42, (1 << 64) - 1, -(1 << 63), Raw("0.5"), Raw("-0"), Raw("1e3"), Raw("2.50E-2"), 1 << 65,
                         "", "a", "é", "日", "𝒳", "\"", "\\", "\n", "a\tb", "\u0000", "/", "x" * 40, "\u2028"])
    if x < 0.75:
        return [jany(r, depth - 1) for _ in range(r.choice([0, 1, 2, 4]))]
    return Obj([(r.choice(NAMES), jany(r, depth - 1)) for _ in range(r.choice([0, 1, 2, 4]))])


def jtext(v, r):
    ws = lambda: r.choice(["", "", "", "", " ", "\n", "\t ", "\r\n"])
    if isinstance(v, Raw):
        return v.t
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        k = r.random()
        if k < 0.5:
            return json.dumps(v, ensure_ascii=False)
        if k < 0.8:
            return json.dumps(v)
        u = v.encode("utf-16-be")
        return '"' + "".join(("\\u%02x%02x" if r.random() < 0.5 else "\\u%02X%02X") % (u[i], u[i + 1]) for i in range(0, len(u), 2)) + '"'
    if isinstance(v, list):
        return "[" + ws() + (ws() + "," + ws()).join(jtext(x, r) for x in v) + ws() + "]"
    return "{" + ws() + (ws() + "," + ws()).join(jtext(n, r) + ws() + ":" + ws() + jtext(x, r) for n, x in v.ms) + ws() + "}"


def jbytes(v, r):
    ws = r.choice(["", "", "", " ", "\n\n", "\t"])
    return (ws + jtext(v, r) + r.choice(["", "", "", " ", "\r\n"])).encode()


def jspoil(b, r):
    b = bytearray(b)
    k = r.randrange(9)
    i = r.randrange(len(b) + 1)
    if k == 0:
        del b[i:]
    elif k == 1 and b:
        del b[min(i, len(b) - 1)]
    elif k == 2:
        b += r.choice([b"x", b"0", b" 1", b"}", b"]", b",", b"null", b"\x00", b"//", b"\xef\xbb\xbf"])
    elif k == 3:
        b[i:i] = r.choice([b",", b":", b"\"", b"\\", b"\x01", b"\xff", b"\xc3", b"'", b"0", b"-", b".", b"e", b"+", b"\xed\xa0\x80", b"\\u", b"\\ud800", b"\\x", b"\n"])
    elif k == 4:
        b[0:0] = r.choice([b"\xef\xbb\xbf", b"x", b"+", b"0", b",", b"\x00", b"\x0b"])
    elif k == 5 and b:
        b[min(i, len(b) - 1)] = r.randrange(256)
    elif k == 6:
        b = bytearray(r.choice([b"", b" ", b"nul", b"nulll", b"True", b"01", b"-", b"1.", b".5", b"1e", b"1e+", b"+1", b"--1", b"[1,]", b"[,1]", b"{\"a\":1,}", b"{a:1}", b"{\"a\" 1}",
                                b"'a'", b"\"a", b"\"\\u12\"", b"\"\\ud800\"", b"\"\\udc00\"", b"\"\\ud800\\u0041\"", b"\"\xff\"", b"[1 2]", b"{\"a\":}", b"NaN", b"Infinity", b"-Infinity",
                                b"undefined", b"1 2", b"[]]", b"{}{}", b"\"\t\"", b"00", b"-01", b"0x1", b"1_0", b"/**/1", b"[" * 127 + b"]" * 127, b"[" * 128 + b"]" * 128, b"[" * 200]))
    return bytes(b)


# ------------------------------------------------------------------ trace form
def tshape(s):
    """The shape as the specification wants it: names as bytes."""
    out = {"t": s["t"]}
    if "s" in s:
        out["s"] = tshape(s["s"])
    if "ss" in s:
        out["ss"] = [tshape(x) for x in s["ss"]]
    if "fields" in s:
        out["fields"] = [{"n": list(f["n"].encode()), "s": tshape(f["s"]), "d": bool(f.get("d"))} for f in s["fields"]]
    return out


def cut(b, r, style=None):
    """Sizes of chunks (zero included)."""
    n = len(b)
    style = style or r.choice(["ones", "two", "few", "rand", "empties", "marks", "marks"])
    if style == "marks":
        # before and after what is neither letter nor digit, or at one kind of such places only
        kinds = set(b[k] for k in range(n) if not chr(b[k]).isalnum() or b[k] > 0x7F)
        if r.random() < 0.5 and kinds:
            kinds = {r.choice(sorted(kinds))}
        side = r.choice([(0,), (1,), (1,), (0, 1)])
        at = sorted({k + d for k in range(n) if b[k] in kinds for d in side} - {0, n})
        if len(at) > 40:
            at = sorted(r.sample(at, 40))
        return [y - x for x, y in zip([0] + at, at + [n])]
    if style == "ones":
        return [1] * n
    if style == "two":
        k = r.randrange(n + 1)
        return [k, n - k]
    m = {"few": 3, "rand": 8, "empties": 4}[style]
    at = sorted(r.randrange(n + 1) for _ in range(m))
    sizes = [y - x for x, y in zip([0] + at, at + [n])]
    if style == "empties":
        sizes = [z for s in sizes for z in ([0, s] if r.random() < 0.6 else [s])] + [0]
    return sizes
