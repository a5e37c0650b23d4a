"""Families of route tables with one dimension pushed far, or one name varied in every way one can think of.
No expectation is computed here."""

import gen_routing as G
import harvest

FIRST = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'(),;=@"

SUFFIX = [".json", ".html", ".htm", ".xml", ".txt", ".php", ".js", ".gz", ".bak", ".", "..", "~", "!", ",", ";", ";x", ";jsessionid=1", ";v=1",
          "-", "_", "+", "&", "=", "=1", ":", ":1", "*", "@", "@1", "$", "'", "(", "()", "%20", "%00", "%0a", "%0d%0a", "%2f", "%2F", "%2fx", "%5c", "%5C",
          "%3f", "%3Fa=1", "%23", "%23x", "%25", "%3b", "%3B", "%2e", "%2Ejson", "%09", "%c3%a9", "%", "s", "es", "0", "1", "x", "[]", "|", "%7c", "^"]
PREFIX = [".", "..", "_", "-", "~", "!", ":", "*", ";", "@", "$", "+", "&", "=", "%20", "%00", "%2f", "%2F", "%5c", "%2e", "%ef%bb%bf", "0", "x", "v", "the-"]
SUFFIX += [t for t in harvest.TEXTS if len(t) < 40]
PREFIX += [t for t in harvest.TEXTS if len(t) < 40]
AROUND = ["/index.php%s", "/index%s", "/api%s", "/v1%s", "/en%s", "/.%s", "/x/..%s", "/%%2e%s", "/%%2f%s", "/*%s", "/:%s", "/www%s", "/public%s", "/~%s",
          "%s/index", "%s/index.html", "%s/.", "%s/..", "%s/../x", "%s/%%2e", "%s/%%2e%%2e", "%s/%%2f", "%s/%%20", "%s/*", "%s/:", "%s/:id", "%s/0", "%s/-",
          "%s/%%00", "%s/;", "%s/$", "%s/_", "%s/new", "%s/edit", "%s/all", "%s/default", "%s/null", "%s/undefined", "%s/.json", "%s/,", "%s/()", "%s//", "//%s", "%s///"]


def respelt(w):
    """Other spellings of one segment."""
    out = [w + s for s in SUFFIX] + [p + w for p in PREFIX]
    out += [w.upper(), w.lower(), w.title(), w.swapcase(), w[::-1], w + w, w[:-1], w[1:], w.replace("-", "_"), w.replace("_", "-"), w.replace("-", ""),
            w.replace("-", "%20"), w.replace("-", "+"), w.replace(".", ""), w.replace(".", "%"), w.replace("_", "")]
    for k, c in enumerate(w):
        for e in ("%%%02X", "%%%02x", "%%25%02x", "%%u00%02x"):
            out.append(w[:k] + e % ord(c) + w[k + 1:])
        out += [w[:k] + c + c + w[k + 1:], w[:k] + w[k + 1:], w[:k] + c.swapcase() + w[k + 1:]]
        if k:
            out.append(w[:k] + w[k] + w[k - 1] + w[k + 1:])
            out.append(w[:k] + "/" + w[k:])
    out += ["".join(e % ord(c) for c in w) for e in ("%%%02X", "%%%02x")]
    out += ["".join(e % ord(c) if not c.isalnum() else c for c in w) for e in ("%%%02X", "%%%02x")]
    return [q for q in dict.fromkeys(out) if q]


def safe(t):
    """Something a request line can carry."""
    ok = set("\"!$%&'()*+,-./:;=@[\\]^_|~{}")
    return all(c.isascii() and (c.isalnum() or c in ok) for c in t)


def decor(r, sid, query=True):
    """A few routes, asked for under every spelling."""
    words = [r.choice(["users", "Users", "file", "list"]), r.choice(["user-list", "a-b_c.d~e", "x.y", "v1.0-rc_1", "caf\u00e9"[:3] + "-e"]),
             r.choice(["a", "b", "0", "id", "x"]), r.choice(["ab", "users2", "a+b", "a,b", "p(q)", "a=b&c"])]
    pats = [[words[0]], [words[1]], [words[0], words[1]], [words[2], words[3]]]
    if r.random() < 0.4:
        pats.append([])
    if r.random() < 0.4:
        pats.append([words[1], r.choice([":id", "*"]), *([] if r.random() < 0.5 else [words[2]])][:3])
        if "*" in pats[-1]:
            pats[-1] = pats[-1][:pats[-1].index("*") + 1]
    ops, names, n = [], set(), 0
    for p in pats:
        n += 1
        names |= {s[1:] for s in p if s[0] == ":"}
        if r.random() < 0.3:
            ops.append({"op": "mw", "path": "/" + "/".join(p), "h": "m%d" % n})
        ops.append({"op": "route", "path": "/" + "/".join(p), "m": "GET", "h": "h%d" % n})
    reqs = []
    for p in pats:
        base = [{":": "7", "*": "q"}.get(s[0], s) for s in p]
        for k in range(len(base)):
            reqs += ["/" + "/".join(base[:k] + [v] + base[k + 1:]) for v in respelt(base[k])]
        reqs += [a % ("/" + "/".join(base)) for a in AROUND]
    reqs = [q for q in reqs if safe(q) and q.startswith("/")]
    hot = set(h for h in harvest.STRINGS)
    must = [q for q in reqs if any(h in q for h in hot)]
    reqs = r.sample(reqs, min(len(reqs), 260)) + r.sample(must, min(len(must), 120))
    return G.scenario(sid, ops, [("GET", q) for q in reqs], names, r, query=False)


def wide(r, sid, uni=False, twins=False):
    """Very many siblings that have nothing in common, and something less specific beside or above them."""
    k = r.choice([9, 17, 18, 33, 34, 65, 66, len(FIRST)]) if not uni else r.choice([17, 65, 129, 257, 300])
    letters = list(FIRST if not uni else [chr(0x4e00 + q) for q in range(320)])
    r.shuffle(letters)
    lits = [c + r.choice(["", "", "x", "yz"]) for c in letters[:k]]
    pre = r.choice([[], [], ["p"], [":v"], ["p", "q"]])
    ops = [{"op": "route", "path": "/" + "/".join(pre + [l] + r.choice([[], [], ["t"]])), "m": "GET", "h": "h%d" % q} for q, l in enumerate(lits)]
    more = [{"op": "route", "path": "/" + "/".join(pre + ["*"]), "m": r.choice(["GET", "GET", "PUT"]), "h": "hw"}]
    if pre:
        more.append({"op": "route", "path": "/*", "m": "GET", "h": "hr"})
    for q in range(r.choice([0, 1, 3])):
        more.append({"op": "mw", "path": "/" + "/".join(pre + r.choice([[], [r.choice(lits)], ["*"]])), "h": "m%d" % q})
    split = r.choice(lits)
    more.append({"op": "route", "path": "/" + "/".join(pre + [split + "~~"]), "m": "GET", "h": "hs"})
    for o in r.sample(more, r.randrange(1, len(more) + 1)):
        ops.insert(r.choice([0, len(ops), r.randrange(len(ops) + 1)]), o)
    fill = ["7" if s[0] == ":" else s for s in pre]
    reqs = [o["path"].replace("*", "zzz/y").replace(":v", "7") for o in ops if o["op"] == "route"]
    reqs += ["/" + "/".join(fill + [l + r.choice(["~", "q"]), "n"][: r.choice([1, 2])]) for l in r.sample(lits, min(k, 12))]
    reqs += ["/" + "/".join(fill), "/", "/" + "/".join(fill + ["%zz"]), "/" + "/".join(fill + [r.choice(lits), "n", "n"])]
    r.shuffle(reqs)
    reqs = reqs[:140]
    return G.scenario(sid, ops, [("GET", q) for q in reqs], {"v"}, r, query=False)


def abyss(r, sid):
    """Very deep paths; parameters, middleware, a wildcard far away."""
    d = r.choice([9, 17, 25, 33, 34, 65, 66, 100, 129, 257])
    style = r.choice(["lit", "same", "param", "both"])
    segs = []
    for k in range(d):
        if style == "same":
            segs.append("a")
        elif style == "param" or style == "both" and r.random() < 0.5:
            segs.append(":p%d" % k)
        else:
            segs.append(r.choice(["a", "b", "ab"]))
    ops = []
    if r.random() < 0.6:
        j = r.randrange(d)
        ops.append({"op": "route", "path": "/" + "/".join(segs[:j] + ["*"]) if not (segs[j:] and segs[j][0] == ":") else "/", "m": "GET", "h": "hw"})
    for q in range(r.choice([0, 1, 2, 5, d])):
        ops.append({"op": "mw", "path": "/" + "/".join(segs[: r.randrange(d + 1) if q < 5 else q]), "h": "m%d" % q})
    cut = r.choice([0, 0, d // 2, d - 1])
    leaf = {"op": "route", "path": "/" + "/".join(segs[cut:]), "m": "GET", "h": "hd"}
    ops.append(leaf if not cut else {"op": "mount", "path": "/" + "/".join(segs[:cut]), "ops": [leaf], "default": False, "clone": False})
    if r.random() < 0.5:
        r.shuffle(ops)
    vals = [("v%d" % k if s[0] == ":" else s) for k, s in enumerate(segs)]
    reqs = [vals, vals + ["n"], vals[:-1], vals[: d // 2], vals[: d // 2] + ["zz"] + vals[d // 2 + 1:], vals[:-1] + ["zz"], vals[1:], ["zz"] * d, vals + vals]
    return G.scenario(sid, ops, [("GET", "/" + "/".join(q)) for q in reqs], {s[1:] for s in segs if s[0] == ":"}, r, query=False)


def tower(r, sid):
    """Very many middleware on few paths."""
    total = r.choice([31, 33, 40, 64, 65, 66, 100, 129, 257])
    paths = r.sample(["/", "/a", "/a/b", "/a/b/:c", "/a/b/:c/*"], r.choice([1, 2, 5]))
    ops = [{"op": "mw", "path": r.choice(paths), "h": "m%d" % k} for k in range(total)]
    ops += [{"op": "route", "path": p, "m": "GET", "h": "h%d" % k} for k, p in enumerate(["/a/b", "/a/b/:c", "/a/b/:c/*", "/a"])]
    if r.random() < 0.5:
        r.shuffle(ops)
    reqs = ["/a", "/a/b", "/a/b/1", "/a/b/1/2", "/a/b/1/2/3", "/", "/b"]
    return G.scenario(sid, ops, [("GET", q) for q in reqs], {"c"}, r, query=False)


def again(r, sid):
    """The same parameter name at several places of a path, mostly by mounting."""
    n = [0]

    def ident(k):
        n[0] += 1
        return "%s%d" % (k, n[0])

    def level(d):
        out = []
        par = r.choice([":id", ":id", ":p"])
        for _ in range(r.randint(1, 4)):
            path = "/" + "/".join(r.choice([[par], [par, "x"], ["x", ":id"], ["y"], [par, "z", r.choice([":id", ":p"])], ["y", "*"], []]))
            if d and r.random() < 0.4:
                out.append({"op": "mount", "path": path.replace("/*", ""), "ops": level(d - 1), "default": False, "clone": r.random() < 0.2})
            elif r.random() < 0.2:
                out.append({"op": "mw", "path": path, "h": ident("m")})
            else:
                out.append({"op": "route", "path": path, "m": r.choice(["GET", "GET", "POST"]), "h": ident("h")})
        return out

    ops = [{"op": "mount", "path": r.choice(["/:id", "/x/:id", "/:id/:p", "/:id/x"]), "ops": level(2), "default": False, "clone": False}] + level(1)
    reqs = []
    for _ in range(40):
        reqs.append((r.choice(["GET", "GET", "POST"]), "/" + "/".join(r.choice(["x", "y", "z", "1", "2", "3"]) for _ in range(r.randrange(1, 8)))))
    return G.scenario(sid, ops, reqs, {"id", "p"}, r, query=False)


def nest(r, sid):
    """Copies of one router mounted in each other: the same objects at several levels of one path."""
    n = [0]

    def some(k, paths):
        out = []
        for _ in range(k):
            n[0] += 1
            p = r.choice(paths)
            out.append({"op": "mw", "path": p, "h": "m%d" % n[0]} if r.random() < 0.5 and "*" not in p or "*" in p and r.random() < 0.2
                       else {"op": "route", "path": p, "m": r.choice(["GET", "GET", "GET", "POST"]), "h": "h%d" % n[0]})
        return out

    name = r.choice([":id", "a", "b"])
    paths = ["/", "/" + name, "/%s/c" % name, "/%s/c/*" % name] + ([] if name[0] == ":" else ["/*"])
    base = some(r.choice([2, 4, 7]), paths) + [{"op": "route", "path": "/%s/e" % name, "m": "GET", "h": "he"}]
    depth = r.choice([1, 2, 3, 5])
    at = "/%s/%s" % (name, r.choice(["again", "e", "f"]))
    ops = list(base)
    for _ in range(depth):
        ops = base + some(r.choice([0, 0, 1]), paths) + [{"op": "mount", "path": at, "ops": ops, "base": "k", "nbase": len(base)}]
    first = {"op": "mount", "path": r.choice(["/one", "/p/one"]), "ops": base, "default": False, "clone": False, "saves": "k"}
    top = [first] + some(r.choice([0, 2]), ["/", "/two", "/p"]) + [{"op": "mount", "path": "/two", "ops": ops, "base": "k", "nbase": len(base)}]
    walk = at.replace(":id", "7")
    base_path = "/" + name.replace(":id", "7")
    reqs = [("GET", q + d * walk + e) for q in ("/one", "/two", "/p/one") for d in range(depth + 2) for e in ("", base_path, base_path + "/e", base_path + "/c", base_path + "/c/d", "/zz")]
    return G.scenario(sid, top, reqs, {"id"}, r, query=False)


def spelt(r, segs):
    """One path in any way its slashes can be written."""
    t = "/".join(segs) if r.random() < 0.8 else "//".join(segs)
    return r.choice(["/%s", "/%s/", "/%s/", "%s", "%s/", "//%s//", "/%s//", "//%s"]) % t


def seams(r, sid):
    """Sub-routers with something at their root and below it, mounted under every spelling of a path, and asked for right at the seam."""
    n, names, asks = [0], set(), []

    def ident(k):
        n[0] += 1
        return "%s%d" % (k, n[0])

    def inside(d, full):
        """A router: something at its root, something below, and often another router."""
        out, own = [], ["u", "v", "w", r.choice([":q", ":id"])]
        for _ in range(r.choice([0, 1, 1, 2])):
            out.append({"op": "mw", "path": r.choice(["/", "/", "//"]), "h": ident("m")})
        for m in r.sample(["GET", "POST", "PUT", "DELETE"], r.choice([0, 1, 1, 2])):
            out.append({"op": "route", "path": r.choice(["/", "/", "//", ""]), "m": m, "h": ident("h")})
        r.shuffle(own)
        for s in own[:r.choice([0, 1, 1, 2, 3])]:
            below = full + [s]
            names.update(x[1:] for x in below if x[0] == ":")
            if d and r.random() < 0.5:
                out.append({"op": "mount", "path": spelt(r, [s]), "ops": inside(d - 1, below), "default": r.random() < 0.1, "clone": r.random() < 0.15})
                continue
            if r.random() < 0.3:
                out.append({"op": "mw", "path": spelt(r, [s]), "h": ident("m")})
            more = r.choice([[s], [s], [s, "z"], [s, "*"]])
            out.append({"op": "route", "path": spelt(r, more), "m": r.choice(["GET", "GET", "POST"]), "h": ident("h")})
            asks.append(full + more)
        asks.append(full)
        if r.random() < 0.4:
            r.shuffle(out)
        return out

    ops = []
    for k in range(r.choice([1, 2, 4, 6])):
        at = r.choice([["s%d" % k], ["s%d" % k], ["s%d" % k, "t"], ["s", "t%d" % k], ["s%d" % k, ":id"], [":id", "s%d" % k], ["s%d" % k, "*"][:1]])
        names.update(x[1:] for x in at if x[0] == ":")
        sub = inside(r.choice([0, 0, 1, 2]), at)
        if r.random() < 0.25:
            ops.append({"op": "scope", "path": spelt(r, at), "ops": sub})
        else:
            ops.append({"op": "mount", "path": spelt(r, at), "ops": sub, "default": r.random() < 0.1, "clone": r.random() < 0.15})
        if r.random() < 0.2:
            ops.append({"op": "mw", "path": "/", "h": ident("m")})
    reqs = []
    for a in asks:
        base = [{":": "7", "*": "k/k2"}.get(s[0], s) for s in a]
        for v in ("/".join(base), "/".join(base) + "/", "/" + "//".join(base), "/".join(base) + "/zz", "/".join(base[:-1])):
            reqs.append((r.choice(["GET", "GET", "POST", "PUT", "DELETE", "PATCH"]), "/" + v))
    r.shuffle(reqs)
    return G.scenario(sid, ops, reqs[:150], names, r, query=False)


def literal(r, sid):
    """Tables and requests made of the literals of the source under test (none on the tree the checks were written on)."""
    ops, reqs, names = [], [], set()
    n = [0]

    def route(segs, m="GET"):
        n[0] += 1
        if r.random() < 0.3:
            ops.append({"op": "mw", "path": "/" + "/".join(segs), "h": "m%d" % n[0]})
        ops.append({"op": "route", "path": "/" + "/".join(segs), "m": m, "h": "h%d" % n[0]})

    def ask(segs, m="GET"):
        q = "/" + "/".join(segs)
        if safe(q):
            reqs.append((m, q))

    segs = [t for t in G.SEGS if len(t) < 200]
    counts = harvest.sizes(1500)
    if segs and (not counts or r.random() < 0.6):
        some = r.sample(segs, min(len(segs), r.choice([1, 2, 4])))
        pre = r.choice([[], [], ["p"], [":v"]])
        lits = [pre + r.choice([[t], [t], [t, "x"], ["x", t], [t, "*"], [t, t], ["q", t, "*"]]) for t in some]
        for p in lits:
            route(p, r.choice(["GET", "GET", "POST"]))
        if r.random() < 0.7:
            route(pre + ["*"])
        if r.random() < 0.4:
            route(pre + ["par", ":id"] + r.choice([[], ["x"], ["*"]]))
            names.add("id")
        fill = ["7" if s[0] == ":" else s for s in pre]
        for p in lits:
            base = ["7" if s[0] == ":" else "w" if s == "*" else s for s in p]
            for m in ("GET", "POST"):
                ask(base, m)
            ask(base[:-1])
            ask(base + ["x"])
            for k in range(len(base)):
                for s in r.sample(segs, min(len(segs), 10)) + [base[k].upper(), base[k].lower(), base[k] + "x", "x" + base[k]]:
                    ask(base[:k] + [s] + base[k + 1:])
                    ask(base[:k] + [s] + base[k:])
                ask(base[:k] + base[k + 1:])
        for s in segs[:40]:
            ask(fill + ["par", s])
            ask(fill + ["par", s, "x"])
            ask(fill + ["other", s])
            ask(fill + [s])
    elif counts:
        c = r.choice(counts)
        kind = r.randrange(6)
        if kind == 0 and c <= 300:
            base = [r.choice("ab") for _ in range(c)]
            route(base)
            route(base[: c // 2] + ["*"])
            for q in (base, base[:-1], base + ["x"], base[: c // 2], base[: c // 2] + ["x"]):
                ask(q)
        elif kind == 1 and c <= 400:
            for k in range(c):
                route(["s%d" % k] if r.random() < 0.8 else ["t", "%d" % k])
            route(["*"])
            for k in sorted({0, 1, c // 2, c - 2, c - 1, c}):
                ask(["s%d" % k])
                ask(["t", "%d" % k])
        elif kind == 2 and c <= 400:
            ops.extend({"op": "mw", "path": r.choice(["/", "/a", "/a/b"]), "h": "m%d" % k} for k in range(c))
            route(["a", "b"])
            ask(["a", "b"])
            ask(["a"])
        elif kind == 3 and c <= 120:
            base = [":p%d" % k for k in range(c)]
            names |= {s[1:] for s in base}
            route(base)
            ask(["v%d" % k for k in range(c)])
            ask(["v%d" % k for k in range(c - 1)])
        else:
            long = "".join(r.choice("abcdefgh") for _ in range(c))
            route(["v", ":id"])
            names.add("id")
            route([long])
            route(["w", "*"])
            for q in ([long], [long[:-1]], [long + "x"], ["v", long], ["v", long, "x"], ["w", long], ["w"] + list(long[:200])):
                ask(q)
    if not ops:
        route(["a"])
        ask(["a"])
        ask(["b"])
    r.shuffle(ops)
    r.shuffle(reqs)
    return G.scenario(sid, ops, reqs[:220], names, r, query=False)


def long_paths(r, sid):
    """Paths that are long in all ways, at the limits of what a request line may have."""
    ops, reqs = [], []
    for k, p in enumerate(["/a", "/v/:id", "/v/:id/x", "/w/*", "/v/:id/:b/*"]):
        ops.append({"op": "route", "path": p, "m": "GET", "h": "h%d" % k})
    for k in range(r.choice([0, 2, 4])):
        ops.append({"op": "mw", "path": r.choice(["/", "/v", "/v/:id", "/w", "/w/*"]), "h": "m%d" % k})
    for n in r.sample([100, 127, 128, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4000, 4096, 4097, 8000, 8192], 12):
        s = "".join(r.choice("abcdefgh") for _ in range(n))
        reqs += [r.choice(["/v/" + s, "/v/%s/x" % s, "/w/" + s, "/v/%s/%s/c" % (s[: n // 2], s[n // 2:]), "/a" + "/" * n, "/" * n + "a", "/w/" + "/".join(s), "/v" + "/" * n + "q", "/a/" + s, "/" + s])
                 for _ in range(3)]
    r.shuffle(ops)
    return G.scenario(sid, ops, [("GET", q) for q in reqs], {"id", "b"}, r, query=False)


def values(r, sid):
    """Every escape and every character as the value of a parameter, or within one."""
    ops = [{"op": "route", "path": p, "m": "GET", "h": "h%d" % k} for k, p in enumerate(["/v/:p", "/:p/e", "/x/:p/:q", "/w/:q/*"])]
    vals = [e % n for n in range(256) for e in ("%%%02X", "%%%02x") if e == "%%%02X" or n & 15 > 9 or n >> 4 > 9]
    vals += [r.choice(["a%s", "%sb", "1%s2", "%%41%s", "%s%%2e"]) % v for v in vals if r.random() < 0.4]
    vals += [chr(n) for n in range(33, 127) if chr(n) not in "/?#<>`*:"] + SUFFIX + PREFIX
    vals += [a + b for a in ("%c3", "%C3", "%e2%82", "%E2%82", "%ed%a0", "%f0%9f%98", "%2", "%", "%%", "%25", "%u00") for b in ("%a9", "%AC", "%80", "e9", "x", "", "%41")]
    vals = [v for v in dict.fromkeys(vals) if v and safe(v)]
    r.shuffle(vals)
    reqs = []
    for v in vals:
        reqs.append(("GET", r.choice(["/v/%s", "/v/%s", "/%s/e", "/x/%s/1", "/x/1/%s", "/w/%s/z", "/w/1/%s"]) % v))
        if r.random() < 0.2:
            reqs.append(("GET", "/x/%s/%s" % (v, r.choice(vals))))
    return G.scenario(sid, ops, reqs, {"p", "q"}, r, query=False)


def escapes(r, sid):
    """Literals with one character that a request spells otherwise: that is another segment."""
    ops, reqs, k = [], [], 0
    for n in range(33, 127):
        c = chr(n)
        if c in "/*?#<>`":
            continue
        k += 1
        at = r.choice(["a\1b", "\1b" if c != ":" else "a\1", "a\1", (c if c != ":" else "x") + "\1"])
        lit = at.replace("\1", c)
        dirname = "/%s%d" % (r.choice(["d", "e/f"]), k)
        ops.append({"op": "route", "path": "%s/%s" % (dirname, lit), "m": "GET", "h": "h%d" % k})
        if r.random() < 0.35:
            ops.append({"op": "route", "path": "%s/%s" % (dirname, r.choice([":p", "*", at.replace("\1", "%%%02x" % n), at.replace("\1", "%%%02X" % n)])), "m": "GET", "h": "g%d" % k})
        for e in dict.fromkeys(["%%%02X" % n, "%%%02x" % n, r.choice(["%%25%02x" % n, c + c, "%%u00%02x" % n, c.swapcase() + "%20"]), c]):
            reqs.append(("GET", "%s/%s" % (dirname, at.replace("\1", e))))
        reqs.append(("GET", "%s/" % dirname + "".join("%%%02x" % ord(x) for x in lit)))
    r.shuffle(ops)
    return G.scenario(sid, ops, reqs, {"p"}, r, query=False)


# property: [(family, quick, thorough)]
PLAN = {
    "R01": [(seams, 6, 60), (nest, 2, 20), (decor, 2, 30), (wide, 4, 40), (abyss, 6, 60), (tower, 2, 12)],
    "R02": [(escapes, 2, 20), (decor, 5, 60), (wide, 2, 20)],
    "R03": [(wide, 7, 60), (abyss, 8, 80), (decor, 1, 10)],
    "R04": [(values, 1, 10), (nest, 4, 40), (abyss, 12, 120), (again, 40, 400), (wide, 3, 30), (decor, 1, 10)],
    "R05": [(seams, 6, 60), (nest, 4, 30), (wide, 10, 80), (abyss, 10, 80), (tower, 2, 10)],
    "R06": [(seams, 5, 50), (wide, 3, 30), (abyss, 8, 80), (again, 20, 200)],
    "R07": [(seams, 10, 100), (nest, 12, 120), (tower, 8, 40), (abyss, 10, 100), (wide, 3, 30), (decor, 1, 10)],
    "R08": [(seams, 25, 250), (nest, 8, 80), (again, 40, 400), (abyss, 15, 100), (wide, 3, 30)],
}


def scenarios(prop, run):
    out = {}
    plan = PLAN[prop] + [(long_paths, 1, 20)]
    if G.SEGS or harvest.sizes(1500):
        plan = plan + [(literal, 30, 120)]
    for f, q, t in plan:
        for k in range(run.scale(q, t)):
            sid = "%s%d" % (f.__name__, k)
            out[sid] = f(run.rng, sid)
    return out


def unicode_wide(run, q, t):
    out = {}
    for k in range(run.scale(q, t)):
        sid = "unwide%d" % k
        out[sid] = wide(run.rng, sid, uni=True)
    return out
