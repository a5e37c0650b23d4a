"""Random route tables and requests. No expectation is computed here: the generator only makes
tables and requests likely to meet each other; what should happen is the specification's business."""

import harvest
from noise import noise

LITS = ["a", "ab", "abc", "abd", "b", "ba", "ac", "A", "aB", "users", "user", "user-list", "users2",
        "0", "00", "a.b", "a-b", "a_b", "~x", "a%20b", "%61", "a:b", "x;y", "v1", "v10", "files", "fil",
        "c", "d", "e", "abcd", "abce", "ABC", "us", "u", "z", "a,b", "a=b", "a@b", "x!", "$m", "(p)", "a+b", "&"]
PARAMS = [":id", ":p", ":x", ":user_id", ":a", ":ab", ":q"]
RARE = [":user-id", ":userId", ":ID", ":id.json", ":a.b", ":id?", ":x+", ":1", ":0", ":42", ":_", ":__x", ":p:q", ":id[]", ":{id}", ":<id>", ":(id)", ":a=b", ":a b", ":\u00e9", ":\u65e5\u672c", ":" + "n" * 70,
        ":$", ":$1", ":%41", ":a~", ":@x", ":a,b", ":a;b", ":a&b", ":id#", ":-", ":-x", ":x-", ":.x", ":..", ":a-b-c", ":a_b-c", ":\\d", ":id|x", ":true", ":null", ":path", ":query", ":body", ":self", ":ID_", ":x'", ":\"x\""]
ODD = ["..", ".", "%2e", "%2F", "%41", "1", "42", "-1", "a%20b", "%E2%82%AC", ":id", ":", "**", "*a", "a*",
       "x" * 70, "%", "AB", "Ab", "a;b=1", "a,b"]
SEGS = [t for t in harvest.TEXTS if t not in (".", "..") and all(c.isascii() and (c.isalnum() or c in "!$&'()+,-.;=@_~|") for c in t)]
LITS += SEGS[:12]
ODD += SEGS[:40] + ["...", "....", ". .".replace(" ", ""), "-", "--", "_"]
METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE"]
OTHER = ["HEAD", "OPTIONS", "TRACE", "FOO", "get", "PROPFIND"]

PROFILES = {
    "mixed": dict(n=(1, 12), mw=0.25, mount=0.08, bad=0.12, wild=0.15, param=0.2, depth=4),
    "plain": dict(n=(2, 14), mw=0.1, mount=0.0, bad=0.05, wild=0.0, param=0.0, depth=4),
    "bound": dict(n=(2, 10), mw=0.3, mount=0.05, bad=0.0, wild=0.06, param=0.06, depth=4, pool="near"),
    "wild": dict(n=(2, 12), mw=0.15, mount=0.08, bad=0.03, wild=0.45, param=0.2, depth=5, pool="few"),
    "param": dict(n=(1, 10), mw=0.1, mount=0.15, bad=0.03, wild=0.15, param=0.6, depth=6),
    "bad": dict(n=(2, 12), mw=0.3, mount=0.12, bad=0.45, wild=0.2, param=0.3, depth=3, pool="few"),
    "mw": dict(n=(3, 16), mw=0.55, mount=0.1, bad=0.03, wild=0.15, param=0.2, depth=5, pool="few"),
    "mount": dict(n=(2, 9), mw=0.3, mount=0.35, bad=0.08, wild=0.15, param=0.2, depth=3),
    "order": dict(n=(3, 10), mw=0.3, mount=0.0, bad=0.0, wild=0.2, param=0.2, depth=4, pool="near"),
    "big": dict(n=(30, 70), mw=0.15, mount=0.03, bad=0.05, wild=0.1, param=0.15, depth=6),
    "deep": dict(n=(3, 8), mw=0.3, mount=0.1, bad=0.03, wild=0.15, param=0.25, depth=24, pool="few", deep=True),
    "long": dict(n=(3, 10), mw=0.2, mount=0.05, bad=0.03, wild=0.1, param=0.1, depth=3, pool="long"),
    "uni": dict(n=(2, 12), mw=0.25, mount=0.1, bad=0.05, wild=0.15, param=0.2, depth=4, pool="uni"),
}
PROFILES["huge"] = dict(n=(260, 420), mw=0.1, mount=0.01, bad=0.02, wild=0.08, param=0.1, depth=4)
PROFILES["fan"] = dict(n=(6, 22), mw=0.15, mount=0.0, bad=0.0, wild=0.05, param=0.05, depth=3, pool="fan")
UNI = ["é", "è", "éa", "ée", "e", "日", "日本", "日月", "本", "ノ", "ノー", "ノーマル", "ß", "ss", "𝒳", "𝒳y", "𝒴", "a", "aé", "aè", "Ω", "ω"]


def near_name(r, p):
    """A parameter nearly of this name."""
    n = p[1:]
    return ":" + r.choice([n.upper(), n.swapcase(), n.capitalize(), n + "s", n + "2", n + "_", n[:-1], n[:1], n[::-1], ":" + n, n.replace("_", "-"), "_" + n, n + ":", "-" + n, n + "?", n + "+", "{%s}" % n, n + ".x", n.replace("-", "_")])


def near_method(r, m):
    """A method nearly of this name; none that a route can be registered for, but for chance."""
    return r.choice([m + "X", m + "-V2", m + m, m[:-1], m[:3], m.lower(), m.capitalize(), "X" + m, m + "_", "x-" + m, m + "-" + "x" * 20, m[1:], m[::-1]]) or m


class Gen:
    def __init__(self, rng, profile, tag=""):
        self.rng = rng
        self.p = dict(PROFILES[profile])
        self.tag = tag
        self.count = 0
        self.params = PARAMS if rng.random() < 0.7 else rng.sample(RARE, 6) + PARAMS[:1]
        pool = self.p.get("pool")
        r = rng
        if pool == "near":
            base = r.choice(["abcd", "user", "aab", "xyxy"])
            self.lits = sorted({base[i:j] for i in range(len(base)) for j in range(i + 1, len(base) + 1)})
            self.lits += [base + "-", base.upper(), base + base[0], "-" + base]
        elif pool == "fan":
            # one stem with many children, and what splits it later
            stem = r.choice(["users", "abcdef", "item-list"])
            k = r.randrange(1, len(stem))
            self.stems = [stem] * 4 + [stem[:k] + "X", stem[:k], stem + "s", stem[:-1] + "Y"]
            self.lits = list("abcde") + ["ab", stem]
        elif pool == "few":
            self.lits = r.sample(LITS, 4) + ["a", "ab"]
        elif pool == "long":
            stem = "".join(r.choice("abcdefghij") for _ in range(r.choice([15, 31, 32, 33, 63, 64, 65, 127, 200, 255, 256, 300])))
            self.lits = [stem, stem[:-1], stem + "x", stem[: len(stem) // 2], stem[:-1] + "Z", stem + "xy", "a"]
        elif pool == "uni":
            self.lits = list(UNI)
        else:
            self.lits = list(LITS)
        self.patterns = []  # (full segment list, method or None)
        self.names = set()

    def ident(self, k):
        self.count += 1
        return "%s%s%d" % (k, self.tag, self.count)

    def text(self, segs, mount=False):
        """A path text for these segments, with insignificant slashes sprinkled in."""
        r = self.rng
        if r.random() < 0.75:
            return "/" + "/".join(segs)
        sep = lambda: "/" * r.choice([1, 1, 1, 2, 3])
        out = r.choice(["", "/", "//", "///"])
        for i, s in enumerate(segs):
            out += (sep() if i else "") + s
        return out + r.choice(["", "", "/", "//"])

    def walk(self, claims, level, leaf_bias=0.5):
        """A pattern that fits what is claimed already."""
        r, p = self.rng, self.p
        segs = []
        node = claims
        if p.get("pool") == "fan" and r.random() < (0.9 if level == 0 else 0.2):
            s = r.choice(self.stems)
            rest = [] if r.random() < 0.2 else [r.choice(self.lits) for _ in range(r.choice([1, 1, 1, 2]))]
            for q in [s] + rest:
                segs.append(q)
                node = node.setdefault(q, {})
            return segs
        if p.get("deep"):
            depth = r.choice([1, 3, 8, 9, 12, 16, 17, p["depth"]])
        else:
            depth = r.choice([0] + list(range(1, p["depth"] + 1)) * 2)
        for i in range(depth):
            keys = list(node)
            if keys and r.random() < leaf_bias:
                s = r.choice(keys)
            elif keys and keys[0].startswith(":"):
                s = keys[0]
            else:
                x = r.random()
                if x < p["wild"] and i == depth - 1:
                    s = "*"
                elif x < p["wild"] + p["param"] and not keys:
                    used = {q for q in segs}
                    cand = [q + ("" if level == 0 else "_%d" % level) for q in self.params]
                    cand = [q for q in cand if q not in used]
                    s = r.choice(cand) if cand else ":p%d_%d" % (i, level)
                    self.names.add(s[1:])
                else:
                    s = r.choice(self.lits)
            segs.append(s)
            if s == "*":
                break
            node = node.setdefault(s, {})
        return segs

    def spoil(self, claims, level):
        """A pattern likely to be refused (or to look as if it should be)."""
        r = self.rng
        segs = self.walk(claims, level, 0.8)
        k = r.randrange(6)
        if k == 0:
            segs = segs + [r.choice(["*a", "a*", "a*b", "**", ":*", "*:"])]
        elif k == 1:
            segs = segs[: r.randrange(len(segs) + 1)] + ["*"] + (segs[-1:] or ["a"])
        elif k == 2 and segs:
            i = r.choice([q for q in range(len(segs)) if segs[q][0] == ":"] or range(len(segs)))
            segs = segs[:i] + [near_name(r, segs[i]) if segs[i][0] == ":" and r.random() < 0.7 else r.choice(self.params)] + segs[i + 1:]
        elif k == 3 and segs:
            i = r.randrange(len(segs))
            segs = segs[:i] + [r.choice(self.lits)] + segs[i + 1:]
        elif k == 4 and segs:
            i = r.randrange(len(segs))
            segs = segs[:i] + ["*"]
        for s in segs:
            if s.startswith(":"):
                self.names.add(s[1:])
        return segs

    def ops(self, prefix=(), level=0, n=None, claims=None):
        r, p = self.rng, self.p
        n = n if n is not None else r.randint(*p["n"])
        claims = {} if claims is None else claims
        out = []
        mine = []
        if level == 0 and p["mw"] > 0.2 and r.random() < 0.06:
            # many middleware on one path
            segs = [] if r.random() < 0.5 else self.walk(claims, level)
            for _ in range(r.choice([9, 12, 17, 20, 33])):
                out.append({"op": "mw", "path": self.text(segs), "h": self.ident("m")})
            out.append({"op": "route", "path": self.text(segs), "m": "GET", "h": self.ident("h")})
            self.patterns.append((list(prefix) + segs, "GET"))
        for _ in range(n):
            x = r.random()
            bad = r.random() < p["bad"]
            segs = self.spoil(claims, level) if bad else self.walk(claims, level)
            full = list(prefix) + segs
            if x < p["mw"]:
                if r.random() < 0.2:
                    out.append({"op": "mwroot", "h": self.ident("m")})
                else:
                    out.append({"op": "mw", "path": self.text(segs), "h": self.ident("m")})
                self.patterns.append((full, None))
            elif x < p["mw"] + p["mount"] and level < 2:
                if not bad and r.random() < 0.7 and segs and segs[-1] == "*":
                    segs = segs[:-1]
                    full = full[:-1]
                long = [q for q in mine if q[0] and len(q[0][-1]) > 1 and q[0][-1][0] not in ":*"]
                if long and not bad and r.random() < 0.35:
                    # where the mount path is the beginning of a literal already there
                    segs = list(r.choice(long)[0])
                    segs[-1] = segs[-1][: r.randrange(1, len(segs[-1]))]
                    full = list(prefix) + segs
                if r.random() < 0.15:
                    # a router with things at its own root only can be mounted anywhere
                    if r.random() < 0.5 and not (segs and segs[-1] == "*"):
                        segs = segs + ["*"]
                    full = list(prefix) + segs
                    sub = [{"op": "mwroot" if r.random() < 0.7 else "mw", "path": "/", "h": self.ident("m")} for _ in range(r.choice([0, 1, 2, 2, 3]))]
                    sub += [{"op": "route", "path": self.text([]), "m": m, "h": self.ident("h")} for m in r.sample(METHODS, r.choice([1, 1, 2, 3]))]
                    r.shuffle(sub)
                    self.patterns += [(full, q["m"]) for q in sub if q["op"] == "route"]
                    out.append({"op": "mount", "path": self.text(segs), "ops": sub, "default": r.random() < 0.2, "clone": r.random() < 0.2})
                    continue
                inner = {}
                first = len(self.patterns)
                sub = self.fan(full, inner) if r.random() < 0.2 else []
                sub += self.ops(tuple(full), level + 1, n=r.randint(0 if r.random() < 0.1 or sub else 1, 5), claims=inner)
                below = self.patterns[first:]
                if level == 0 and r.random() < 0.3:
                    out.append({"op": "scope", "path": self.text(segs).lstrip("/") or "/", "ops": sub})
                else:
                    out.append({"op": "mount", "path": self.text(segs), "ops": sub,
                                "default": r.random() < 0.2, "clone": r.random() < 0.2})
                    if r.random() < 0.25:
                        # a copy of that router, made before it was mounted, grows apart and is mounted too
                        key = self.ident("k")
                        out[-1]["saves"] = key
                        for _ in range(r.choice([1, 1, 2])):
                            segs2 = self.walk(claims, level)
                            full2 = list(prefix) + segs2
                            self.patterns += [(full2 + pat[len(full):], m) for pat, m in below]
                            more = self.ops(tuple(full2), level + 1, n=r.randint(0, 3), claims=inner)
                            if level == 0 and r.random() < 0.3:
                                # and holds a copy of itself as it was
                                segs3 = self.walk(dict(inner), level + 1)
                                full3 = full2 + segs3
                                self.patterns += [(full3 + pat[len(full):], m) for pat, m in below]
                                more = more + [{"op": "mount", "path": self.text(segs3), "ops": list(sub), "base": key, "nbase": len(sub)}]
                            out.append({"op": "mount", "path": self.text(segs2), "ops": sub + more, "base": key, "nbase": len(sub)})
            else:
                m = r.choice(METHODS) if r.random() < 0.5 else "GET"
                again = [q for q in mine if q[1]]
                if r.random() < 0.12 and again:
                    # another method on a path already there (or a duplicate)
                    segs, m0 = r.choice(again)
                    full = list(prefix) + segs
                    if not (bad or p["bad"] > 0.3 and r.random() < 0.5):
                        m = r.choice([q for q in METHODS if q != m0])
                    else:
                        m = m0
                out.append({"op": "route", "path": self.text(segs), "m": m, "h": self.ident("h")})
                self.patterns.append((full, m))
                mine.append((segs, m))
        return out

    def fan(self, full, claims):
        """Many literals side by side, of all lengths, with a wildcard among them."""
        r = self.rng
        segs = [r.choice([c, c, c + "x", c + "long-one", c * 9]) for c in r.sample("abcdefghijklmnopqrstuvwxyz0123456789-_~", r.randint(2, 9))]
        out = []
        for s in r.sample(segs + ["*"], len(segs) + 1):
            claims.setdefault(s, {})
            out.append({"op": "route", "path": self.text([s]), "m": "GET", "h": self.ident("h")})
            self.patterns.append((list(full) + [s], "GET"))
        return out

    # ------------------------------------------------------------ requests
    def seg(self):
        r = self.rng
        x = r.random()
        if x < 0.6:
            return r.choice(self.lits)
        if x < 0.8:
            return r.choice(LITS)
        if x < 0.82:
            return "".join(r.choice("abcxyz019-") for _ in range(r.choice([128, 255, 256, 257, 300, 1000, 3000])))
        return r.choice(ODD)

    def target_segments(self):
        r = self.rng
        if not self.patterns or r.random() < 0.06:
            return [self.seg() for _ in range(r.randrange(4))], r.choice(METHODS)
        routed = [q for q in self.patterns if q[1]]
        pat, m = r.choice(routed if routed and r.random() < 0.8 else self.patterns)
        segs = []
        for s in pat:
            if s.startswith(":"):
                segs.append(self.seg())
            elif s == "*":
                segs += [self.seg() for _ in range(r.choice([0, 1, 1, 1, 2, 3, 6]))]
            else:
                segs.append(s)
        return segs, m or "GET"

    def mutate(self, segs):
        r = self.rng
        segs = list(segs)
        k = r.randrange(15)
        i = r.randrange(len(segs)) if segs else 0
        if k == 0:
            segs = segs[:-1]
        elif k == 1:
            segs.append(self.seg())
        elif k == 2 and len(segs) > 1:
            j = r.randrange(len(segs) - 1)
            segs[j:j + 2] = [segs[j] + segs[j + 1]]
        elif k in (3, 4) and segs and len(segs[i]) > 1:
            j = r.randrange(1, len(segs[i]))
            segs[i:i + 1] = [segs[i][:j], segs[i][j:]]
        elif k == 5 and segs:
            segs[i] = segs[i].swapcase()
        elif k == 6 and segs:
            segs[i] = segs[i] + r.choice(["x", "-", ".", "a", segs[i][-1:]])
        elif k == 7 and segs and len(segs[i]) > 1:
            segs[i] = segs[i][:-1]
        elif k == 8 and segs and segs[i] and segs[i].isascii():
            # one character, all of them, or those that are neither letters nor digits, as escapes
            e = r.choice(["%%%02X", "%%%02x"])
            j = r.randrange(len(segs[i]))
            odd = [q for q, c in enumerate(segs[i]) if not c.isalnum()]
            which = {0: [j], 1: range(len(segs[i])), 2: odd or [j], 3: odd[:1] or [j]}[r.randrange(4)]
            segs[i] = "".join(e % ord(c) if q in which else c for q, c in enumerate(segs[i]))
        elif k == 9 and segs:
            segs.insert(i, self.seg())
        elif k == 10 and segs:
            segs[i] = self.seg()
        elif k == 11 and segs:
            del segs[i]
        elif k > 11 and segs and len(segs[i]) > 1:
            # one character: another, one more, or two exchanged; often near the end
            s = segs[i]
            j = r.choice([len(s) - 1, len(s) - 1, r.randrange(len(s))])
            if s[j].isalnum() and "%" not in s:
                if k == 12:
                    s = s[:j] + r.choice([c for c in "abxyz01" if c != s[j]]) + s[j + 1:]
                elif k == 13:
                    s = s[:j] + r.choice("abx1") + s[j:]
                elif j:
                    s = s[:j - 1] + s[j] + s[j - 1] + s[j + 1:]
                segs[i] = s
        return [s for s in segs if s]

    def requests(self, n):
        r = self.rng
        out = []
        for q in range(n):
            segs, m = self.target_segments()
            x = r.random()
            if x < 0.45:
                segs = self.mutate(segs)
                if x < 0.12:
                    segs = self.mutate(segs)
            if r.random() < 0.15:
                x = r.random()
                m = r.choice(METHODS) if x < 0.5 else r.choice(OTHER) if x < 0.75 else near_method(r, m)
            t = self.text(segs)
            if not t.startswith("/"):
                t = "/" + t
            out.append((m, t))
        return out


def steps_of(reqs, rng, query=True):
    steps = []
    for k, (m, t) in enumerate(reqs):
        q = ""
        if query and rng.random() < 0.12:
            q = rng.choice(["?", "?a=1", "?x=/a/b", "?/a", "?a=b&c=d", "?*"])
        if t.startswith("/") and rng.random() < 0.06 and "//" not in t[:2]:
            # as a proxy asks
            t = rng.choice(["http://localhost", "http://example.com:8080", "http://[::1]", "https://a.b", "http://u@h"]) + (t if t != "/" or rng.random() < 0.5 else "")
        steps.append({"s": "req", "r": "r%d" % k, "method": m, "target": t + q, "headers": noise(rng, 0.06)})
    return steps


def asked(names, rng):
    """The names handlers ask parameters by: those there are, and some a little different."""
    out = set(names) | {"nope", ""}
    for n in rng.sample(sorted(names), min(3, len(names))):
        out |= set(rng.sample([n.swapcase(), ":" + n, n[:-1], n + "x", n + n, " " + n, n + " ", "*" + n, "*", n.replace("-", "_"), n.replace("_", "-"), n.split(".")[0], n.rstrip("?+"), n[1:], "{%s}" % n, n.upper()], 3))
    return sorted(out)


def scenario(sid, ops, reqs, names, rng, query=True):
    return {"id": sid, "kind": "app", "ops": ops, "steps": steps_of(reqs, rng, query), "names": asked(names, rng)}


# ---------------------------------------------------------------- traces
BLANK = {"path": "", "m": "", "h": "", "ok": ""}


def reg_lines(ops, outcomes):
    """Registration lines, in the order the calls returned."""
    it = iter(outcomes)
    lines = []

    def go(ops):
        for op in ops:
            k = op["op"]
            if k in ("mount", "scope"):
                # a refused scope may have panicked before its contents were applied
                first = next(it)
                assert first == "open", first
                lines.append(dict(BLANK, e="open"))
                go(op["ops"])
                path = op["path"] if k == "mount" else "/" + op["path"]
                lines.append(dict(BLANK, e="mount", path=path, ok=next(it)))
            elif k == "route":
                lines.append(dict(BLANK, e="route", path=op["path"], m=op["m"], h=op["h"], ok=next(it)))
            elif k == "mw":
                lines.append(dict(BLANK, e="mw", path=op["path"], h=op["h"], ok=next(it)))
            elif k == "mwroot":
                lines.append(dict(BLANK, e="mw", path="/", h=op["h"], ok=next(it)))
            else:
                next(it)

    go(ops)
    return lines


def path_of(target):
    if target[:1] != "/" and "://" in target:
        target = target.split("://", 1)[1]
        target = target[target.index("/"):] if "/" in target.split("?")[0] else "/"
    return target.split("?")[0]


def req_lines(sc, events, names):
    by = {}
    for ev in events:
        by.setdefault(ev.get("r"), []).append(ev)
    lines = []
    for st in sc["steps"]:
        rid = st["r"]
        l = {"e": "req", "n": rid, "m": st["method"], "path": path_of(st["target"]), "status": "", "body": "",
             "ran": [], "hs": [], "params": [], "names": names, "lost": ""}
        for ev in by.get(rid, []):
            if ev["e"] == "enter":
                l["ran"].append(ev["who"])
            elif ev["e"] == "handler":
                l["hs"].append(ev["who"])
                l["params"] = ev["params"]
            elif ev["e"] == "answer":
                l["status"] = ev["status"]
                l["body"] = ev["body"]
            elif ev["e"] == "lost":
                l["lost"] = ev["why"]
        lines.append(l)
    return lines


def block(sc, res, twin="-"):
    lines = [dict(BLANK, e="app", h=twin)]
    lines += reg_lines(sc["ops"], res["outcomes"])
    lines += req_lines(sc, res["events"], sc["names"])
    return lines


def drop_refused(ops, outcomes):
    """The same operations without those that were refused."""
    it = iter(outcomes)

    def go(ops):
        kept = []
        for op in ops:
            if op["op"] in ("mount", "scope"):
                assert next(it) == "open"
                sub = go(op["ops"])
                if next(it) == "ok":
                    op = {k: v for k, v in op.items() if k not in ("saves", "base", "nbase")}
                    kept.append(dict(op, ops=sub))
            elif next(it) == "ok":
                kept.append(op)
        return kept

    return go(ops)


def flatten(ops, prefix=""):
    """Mounted contents registered one by one under the mount path (operations all accepted)."""
    out = []
    for op in ops:
        k = op["op"]
        if k in ("mount", "scope"):
            out += flatten(op["ops"], prefix + "/" + op["path"])
        elif k == "mwroot" and prefix:
            out.append({"op": "mw", "path": prefix, "h": op["h"]})
        elif k == "mwroot":
            out.append(op)
        else:
            out.append(dict(op, path=(prefix + "/" + op["path"]) if prefix else op["path"]))
    return out
