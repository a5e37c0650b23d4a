"""Literals of the source under test, as inputs.

Tests that only try values the tester thought of miss code that minds one particular value. As fuzzers do with
their automatic dictionaries, this module reads the texts, characters and numbers that occur in /repo/src (comments
and test modules left out) and gives those that are not in known_literals.json (which lists what the tree had when
these checks were written) to the generators, as texts, names, sizes and counts. They are inputs only: what the
answers must be is the specification's business, and a literal by itself never makes a check fail."""
import json
import os
import re
import sys
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(HERE, "known_literals.json")
SRC = "/repo/src"

RULES = [
    ("skip", re.compile(r"//[^\n]*")),
    ("raw", re.compile(r"b?r(#*)\"(.*?)\"\1", re.S)),
    ("str", re.compile(r"b?\"((?:[^\"\\]|\\.)*)\"", re.S)),
    ("chr", re.compile(r"b?'((?:[^'\\\n]|\\(?:u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)))'")),
    ("life", re.compile(r"'[a-zA-Z_]\w*")),
    ("num", re.compile(r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?)(?:_?(?:[ui](?:8|16|32|64|128|size)|f32|f64))?")),
    ("word", re.compile(r"[A-Za-z_]\w*")),
    ("space", re.compile(r"\s+")),
    ("op", re.compile(r"<<|::|.", re.S)),
]
LIMITS = {"u8": 255, "i8": 127, "u16": 65535, "i16": 32767}


def unescape(s):
    def one(m):
        e = m.group(1)
        if e[0] == "u":
            n = int(e[2:-1].replace("_", ""), 16)
            return chr(n) if n < 0xD800 or 0xE000 <= n < 0x110000 else ""
        if e[0] == "x":
            return chr(int(e[1:], 16))
        if e[0] == "\n":
            return ""
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(e[0], e[0])
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\n\s*|.)", one, s, flags=re.S)


def lex(text):
    out, i = [], 0
    while i < len(text):
        if text.startswith("/*", i):
            depth, i = 1, i + 2
            while depth and i < len(text):
                if text.startswith("/*", i):
                    depth, i = depth + 1, i + 2
                elif text.startswith("*/", i):
                    depth, i = depth - 1, i + 2
                else:
                    i += 1
            continue
        for kind, rule in RULES:
            m = rule.match(text, i)
            if m and m.end() > i:
                break
        i = m.end()
        if kind == "raw":
            out.append(("str", m.group(2)))
        elif kind in ("str", "chr"):
            out.append(("str", unescape(m.group(1))))
        elif kind == "num":
            t = m.group(1).replace("_", "")
            out.append(("num", int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(float(t))))
        elif kind in ("word", "op"):
            out.append((kind, m.group(0)))
    return out


def no_tests(toks):
    """Without what stands below #[cfg(test)]."""
    out, i = [], 0
    mark = [("op", "#"), ("op", "["), ("word", "cfg"), ("op", "("), ("word", "test"), ("op", ")"), ("op", "]")]
    while i < len(toks):
        if toks[i:i + len(mark)] == mark:
            depth = 0
            while i < len(toks):
                if toks[i] == ("op", "{"):
                    depth += 1
                elif toks[i] == ("op", "}"):
                    depth -= 1
                    if not depth:
                        break
                elif toks[i] == ("op", ";") and not depth:
                    break
                i += 1
            i += 1
        else:
            out.append(toks[i])
            i += 1
    return out


def literals(src=SRC):
    found = Counter()
    for d, _, files in os.walk(src):
        for f in files:
            if not f.endswith(".rs"):
                continue
            try:
                toks = no_tests(lex(open(os.path.join(d, f), encoding="utf-8").read()))
            except (OSError, UnicodeDecodeError):
                continue
            for k, (kind, v) in enumerate(toks):
                nxt = toks[k + 1:k + 3]
                if kind in ("str", "num"):
                    found[(kind, v)] += 1
                if kind == "num" and len(nxt) == 2 and nxt[1][0] == "num" and nxt[0] in (("op", "*"), ("op", "<<"), ("op", "+"), ("op", "-")):
                    a, b = v, nxt[1][1]
                    n = {"*": a * b, "<<": a << min(b, 40), "+": a + b, "-": a - b}[nxt[0][1]]
                    found[("num", n)] += 1
                    if toks[k + 3:k + 4] == [("op", "*")] and toks[k + 4:k + 5] and toks[k + 4][0] == "num":
                        found[("num", n * toks[k + 4][1])] += 1
                if kind == "word" and nxt[:1] == [("op", "::")] and len(nxt) == 2 and nxt[1][0] == "word":
                    if nxt[1][1] == "MAX" and v in LIMITS:
                        found[("num", LIMITS[v])] += 1
                    elif v == "header" and nxt[1][1].isupper():
                        found[("str", nxt[1][1].lower().replace("_", "-"))] += 1
                    elif v == "StatusCode" and nxt[1][1].isupper():
                        found[("str", nxt[1][1].title().replace("_", " "))] += 1
    return found


def fresh():
    known = Counter({(k, v): n for k, v, n in json.load(open(KNOWN))}) if os.path.exists(KNOWN) else Counter()
    return sorted((k, v) for k, v in (literals() - known))


def usable(t):
    """Format strings: their fixed parts too."""
    out = [t]
    if "{" in t:
        out += [p for p in re.split(r"\{[^}]*\}", t) if p]
    if len(t) > 12 and " " in t:
        out += sorted(t.split(), key=len)[-2:]
    return out


_FRESH = fresh()
STRINGS = list(dict.fromkeys(u for k, v in _FRESH if k == "str" and 0 < len(v) <= 200 for u in usable(v)))[:24]
NUMBERS = list(dict.fromkeys(v for k, v in _FRESH if k == "num" and 2 <= v <= 1 << 21))[:10]


def texts():
    out = []
    for s in STRINGS:
        out += [s, "x" + s, s + "x", "x" + s + "y", s + s, "x " + s + " y", "/" + s, s + "/x"]
        for t in (s.upper(), s.lower(), s.title()):
            out.append(t)
    for a in STRINGS[:6]:
        for b in STRINGS[:6]:
            if a != b:
                out += [a + "x" + b, "1" + a + "2" + b]
        out += ["1" + a, a + "1", "12" + a]
    return list(dict.fromkeys(t for t in out if t))[:160]


def sizes(limit):
    return list(dict.fromkeys(n for v in NUMBERS for n in (v - 1, v, v + 1, v + 9, 2 * v + 1) if 0 < n <= limit))


def names():
    """Those that may be the names of headers, in lower case, framing left alone."""
    bad = {"host", "content-length", "transfer-encoding", "connection", "expect"}
    out = [s.lower() for s in STRINGS if re.fullmatch(r"[A-Za-z][A-Za-z0-9-]{1,40}", s)]
    return [n for n in dict.fromkeys(out) if n not in bad and not n.startswith("x-rid")]


def header_values():
    out = [t for t in texts() if t[0] not in "@%" and t == t.strip() and all(c == "\t" or 32 <= ord(c) != 127 for c in t)]
    return list(dict.fromkeys(out[:80] + [str(n + d) for n in NUMBERS for d in (-1, 0, 1)]))


TEXTS = texts()

if __name__ == "__main__":
    if sys.argv[1:] == ["--record"]:
        json.dump(sorted([k, v, n] for (k, v), n in literals().items()), open(KNOWN, "w"), indent=0, ensure_ascii=True)
    else:
        print(STRINGS, NUMBERS, len(TEXTS), names())
