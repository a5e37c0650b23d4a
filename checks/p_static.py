"""Checks F01 and F02: static files. Every scenario has a directory of its own below a scratch
directory; the server only reads."""
import os

import common
import dictionary
import harvest
from gen_routing import BLANK
from noise import noise

NAMES = ["a.txt", "b.html", "index.html", "x", "data.bin", "a.tar.gz", ".hidden", "..x", "x..", "...", "~home", "a+b", "a=b", "a,b", "a;b",
         "@at", "(p)", "Upper.TXT", "no_ext", "0", "-", "f'q", ":p", "a&b", "long-" + "n" * 120, "js", "css"]
DIRS = ["d", "sub", "deep", "js", "a", ".well-known", "x.y", "pub", "...d"]


def describe(scs):
    def f(key, k, line, lines):
        return {"scenario": scs[key], "refused_line": line, "line_index": k, "trace": lines[:400],
                "note": "the specification does not allow this answer given the files that existed"}
    return f


class Site:
    """A scratch tree (paths are segment lists below the scratch root), an application and steps."""

    def __init__(self, r, sid):
        self.r, self.sid = r, sid
        self.base = ["w", sid]
        self.files = {}
        self.dirs = set()
        self.n = 0
        self.ops, self.steps, self.statics = [], [], []
        self.rid = 0

    def rel(self, p):
        return "/".join(p[1:]) if p[0] == "w" else "../" + "/".join(p)

    def content(self, kind=None):
        r = self.r
        self.n += 1
        tag = "%s/%d" % (self.sid, self.n)
        k = kind or r.choice(["text", "text", "bin", "empty", "large", "html", "utf8"])
        if k == "text":
            return "content of " + tag
        if k == "html":
            return "<p>%s</p>\n" % tag
        if k == "utf8":
            return "\u00e9\u65e5 " + tag
        if k == "bin":
            return "%" + (bytes(r.randrange(256) for _ in range(r.choice([3, 60, 300]))) + b"\xff\x00" + tag.encode()).hex()
        if k == "empty":
            return ""
        return "@%d:%d" % (r.choice([401, 8191, 8192, 8193, 65536, 200000, 1000003, (1 << 20) + 1] if self.r.random() < 0.9 else [1500000, 2300000]), r.randrange(10 ** 6) + 1000 * self.n)

    def write(self, p, data=None):
        q = tuple(p)
        if q in self.dirs or any(q[:k] in self.files for k in range(1, len(q))):
            return  # a directory there, or a file where a directory is needed
        self.dirs.update(q[:k] for k in range(1, len(q)))
        data = self.content() if data is None else data
        self.files[tuple(p)] = data
        self.steps.append({"s": "write", "path": self.rel(p), "data": data, "p": list(p)})

    def remove(self, p):
        if tuple(p) not in self.files:
            return
        del self.files[tuple(p)]
        self.steps.append({"s": "remove", "path": self.rel(p), "p": list(p)})

    def mkdir(self, p):
        self.dirs.update(tuple(p[:k]) for k in range(1, len(p) + 1))
        self.steps.append({"s": "mkdir", "path": self.rel(p), "p": list(p)})

    def get(self, target, m="GET", burst=None):
        self.rid += 1
        st = {"s": "req", "r": "r%d" % self.rid, "c": "c", "method": m, "target": target, "headers": noise(self.r, 0.15)}
        if burst is None:
            self.steps.append(st)
        else:
            burst.append(st)

    def static(self, ops, vp, D, plain=None):
        """A static route for directory D (below the working directory)."""
        r = self.r
        h = "!s%d" % len(self.statics)
        d = "/".join(D[1:])
        d = r.choice([d, "/" + d, d + "/", "/" + d + "/", "./" + d if plain is None else d, d.replace("/", "//", 1)])
        self.statics.append((vp, list(D)))
        ops.append({"op": "static", "path": vp, "dir": d, "h": h, "D": list(D)})

    def scenario(self):
        # (executor) an application; the files written before the first request come first
        return {"id": self.sid, "kind": "app", "ops": self.ops, "progs": {}, "names": [], "mode": self.r.choice(["new", "default"]),
                "steps": self.steps}


def slashes(r, path):
    if r.random() < 0.75:
        return path
    out = ""
    for c in path:
        out += c
        if c == "/" and r.random() < 0.3:
            out += "/" * r.choice([1, 2])
    if r.random() < 0.3:
        out += "/"
    return out


def vpath(r, vp):
    """A request path for the virtual path."""
    segs = [("v%d" % r.randrange(9)) if s.startswith(":") else s for s in vp.split("/") if s]
    return "/" + "/".join(segs) + ("/" if segs else "")


def attack(r, site, D, scratch):
    """A path that tries to reach a file outside D."""
    outside = [p for p in site.files if list(p[:len(D)]) != D]
    inside = [p for p in site.files if list(p[:len(D)]) == D]
    p = list(r.choice(outside))
    common_len = 0
    while common_len < min(len(p) - 1, len(D)) and p[common_len] == D[common_len]:
        common_len += 1
    ups = [".."] * (len(D) - common_len)
    rel = ups + p[common_len:]
    k = r.randrange(16)
    if k == 0:
        rel = [".", ] + rel
    elif k == 1 and inside:
        q = list(r.choice(inside))[len(D):-1]
        rel = q + [".."] * len(q) + rel
    elif k == 2:
        rel = ["nosuch", ".."] + rel
    elif k == 3:
        rel = [".."] * r.choice([3, 12, 40]) + [s for s in scratch.split("/") if s] + p
    elif k == 4:
        return r.choice(["/", "//", "%2f", "%2F"]) + scratch + "/" + "/".join(p)
    elif k == 5:
        return scratch.replace("/", "%2f") + "%2f" + "%2f".join(p)
    elif k == 6:
        rel = [s + r.choice(["", "%00", ";", "%20", "."]) if s == ".." else s for s in rel]
    elif k == 7:
        rel = ["....//" if s == ".." else s for s in rel]
    elif k == 8:
        return r.choice(["..%5c", "..\\", "..%c0%af", "..%252f", "%2e%2e%2f", "%2e%2e\\"]) * len(ups) + "/".join(p[common_len:])
    elif k == 9 and inside:
        q = list(r.choice(inside))[len(D):]
        rel = q + [".."] * len(q) + rel
    if r.random() < 0.35:
        return spelled(r, rel)
    enc = r.choice([None, None, None, "%2e%2e", "%2E%2E", ".%2e", "%2e.", "%252e%252e", "%2e%2e%2f"])
    if enc:
        rel = [enc if s == ".." else s for s in rel]
    return r.choice(["/", "/", "/", "//", "/./", "%2f"]).join(rel)


DOTS = ["..", "..", "..", "%2e%2e", "%2E%2E", ".%2e", "%2e.", "%252e%252e", "..%00", "..;", "..%20"]
JOINS = ["/", "%2f", "%2F", "%5c", "%5C", "\\", "%252f", "//", "/./", "/%2e/", "%2f%2f", "/%2f", "%2f/"]
DOTS += [t for t in harvest.STRINGS if ".." in t and len(t) < 12 and t.isascii() and t.isprintable() and " " not in t and "?" not in t and "#" not in t]
JOINS += [t for t in harvest.STRINGS if len(t) < 6 and t.isascii() and t.isprintable() and not t.isalnum() and not set(t) & set(" ?#.")]


def spelled(r, rel):
    """The same path with each '..' and each separator written in its own way."""
    one = [r.choice(JOINS)] if r.random() < 0.5 else JOINS
    dots = [r.choice(DOTS)] if r.random() < 0.6 else DOTS
    out = r.choice(["", "", "", "%2f", "%2F", "./", "%2e/", "%2e%2f"])
    for k, s in enumerate(rel):
        out += (r.choice(one) if k else "") + (r.choice(dots) if s == ".." else s)
    return out


def sweep(r, site, pre, D):
    """Every spelling of one escape, from the directory itself and from below it."""
    inside = [list(p[len(D):-1]) for p in site.files if list(p[:len(D)]) == D and len(p) > len(D) + 1]
    up = D[:-1] + ["near-" + site.sid]
    site.write(up, "secret near %s" % site.sid)
    for down in [[]] + ([r.choice(inside)] if inside else []) + [["nosuch"]]:
        for dots in sorted(set(DOTS)):
            for join in JOINS:
                rel = down + [dots] * len(down) + [dots, up[-1]]
                site.get(pre + join.join(rel))


def random_site(prop, r, sid, scratch):
    s = Site(r, sid)
    D = s.base + r.choice([["pub"], ["pub"], ["srv", "www"], ["a", "b", "c"], ["pub", "pub"], ["a", "b", "a"], ["s", "s", "s"], ["files", "pub"], ["x.y", "..d", "~z"]])
    vps = r.sample(["/files", "/s", "/static/v1", "/", "/u/:id/files", "/files/x/", "/pub/pub", "/a/b/a", "/s/s/s", "/pub"], r.choice([1, 1, 2]))
    vps = [v for v in vps if not (v == "/" and len(vps) > 1)]
    # a tree with files inside, beside and above the directory; some named like the routes and directories
    dirs = DIRS + [q for v in vps for q in v.split("/") if q and q[0] != ":"] * 4 + D[2:] * 3
    names = NAMES + dirs
    for _ in range(r.choice([2, 4, 8])):
        p = D + [r.choice(dirs) for _ in range(r.choice([0, 0, 1, 1, 2, 5]))] + [r.choice(names)]
        if not clash(s, p):
            s.write(p)
    secret = lambda p: s.write(p, "secret %s %s" % (sid, "/".join(p)))
    for p in [s.base + ["secret.txt"], s.base + ["a.txt"], D[:-1] + [D[-1] + "2", "a.txt"], D[:-1] + [D[-1] + "-x"], ["out-" + sid],
              s.base + ["other", "deep", "secret.txt"]]:
        if not clash(s, p):
            secret(p)
    if r.random() < 0.5:
        s.mkdir(D + ["emptydir"])
    mounted = prop == "F01" and r.random() < 0.3
    target = s.ops
    prefix = ""
    if mounted:
        target = []
        prefix = r.choice(["/m", "/m/n", "/q/:k"])
    direct = prop == "F01" and r.random() < 0.15 and not mounted or (prop == "F02" and r.random() < 0.15)
    if direct:
        h = "!s0"
        d = "/".join(D[1:])
        s.ops.append({"op": "staticdir", "dir": r.choice([d, "/" + d, d + "/"]), "h": h, "D": D})
        s.statics.append(("/" + d, D))
        vps = []
    for k, v in enumerate(vps):
        Dk = D if k == 0 else r.choice([D, D[:-1] + [D[-1] + "2"]])
        s.static(target, v, Dk)
    if mounted:
        s.ops.append({"op": "mount", "path": prefix, "ops": target, "default": False, "clone": r.random() < 0.5})
    # other routes and middleware, some below the static ones
    for p in r.sample(["/other", "/files/special", "/files/special/:p", "/s/a.txt/info", "/zz/*", "/static"], 2):
        s.ops.append({"op": "route", "path": p, "m": r.choice(["GET", "POST"]), "h": "h" + str(len(s.ops))})
    if r.random() < 0.4:
        s.ops.append({"op": "mw", "path": r.choice(["/", "/files", "/s"]), "h": "m0"})
    r.shuffle(s.ops)
    if prop == "F01" and r.random() < 0.12:
        v, Dv = r.choice(s.statics)
        sweep(r, s, vpath(r, v) if not prefix else vpath(r, prefix)[:-1] + vpath(r, v), Dv)
    # requests, while files change
    for _ in range(r.choice([20, 40])):
        v, Dv = r.choice(s.statics)
        pre = vpath(r, v) if not prefix else vpath(r, prefix)[:-1] + vpath(r, v)
        x = r.random()
        inside = [p for p in s.files if list(p[:len(Dv)]) == Dv]
        burst = []
        if x < (0.55 if prop == "F01" else 0.1):
            s.get(pre + attack(r, s, Dv, scratch))
        elif x < 0.75 and inside:
            p = r.choice(inside)
            t = slashes(r, pre + "/".join(p[len(Dv):]))
            if r.random() < 0.15:
                t += r.choice(["?v=1", "?", "?../secret.txt"])
            s.get(t, r.choice(["GET"] * 8 + ["POST"]))
        elif x < 0.82 and inside:
            # near misses
            p = list(r.choice(inside))[len(Dv):]
            k = r.randrange(7)
            if k == 0:
                p = p[:-1]
            elif k == 1:
                p = p + [r.choice(["x", "a.txt"])]
            elif k == 2:
                p[-1] = p[-1].swapcase()
            elif k == 3:
                p[-1] = p[-1][:-1] or "q"
            elif k == 4:
                p = p[1:]
            elif k == 5:
                p = p[:1] + p
            else:
                p[-1] = p[-1] + r.choice(["x", ".", "~"])
            s.get(slashes(r, pre + "/".join(p)))
        elif x < 0.86:
            s.get(r.choice(["/other", "/files/special", "/files/special/q", "/s/a.txt/info", "/zz/y", "/nothing", pre[:-1] or "/", pre]))
        elif x < 0.92 and inside:
            k = r.choice(inside)
            if r.random() < 0.4:
                s.remove(list(k))
            else:
                s.write(list(k))
            s.get(pre + "/".join(k[len(Dv):]))
        elif x < 0.96:
            p = Dv + [r.choice(DIRS) for _ in range(r.choice([0, 1, 3]))] + [r.choice(NAMES)]
            if tuple(p) not in s.files and not clash(s, p):
                s.get(pre + "/".join(p[len(Dv):]))
                s.write(p)
                s.get(pre + "/".join(p[len(Dv):]))
        elif inside:
            for _ in range(r.choice([4, 12])):
                p = r.choice(inside)
                s.get(pre + "/".join(p[len(Dv):]), burst=burst)
            s.steps.append({"s": "burst", "reqs": burst})
    return s.scenario()


EXT = ["txt", "html", "htm", "css", "js", "mjs", "json", "xml", "svg", "png", "gz", "br", "map", "wasm", "php", "cgi", "sh", "exe", "py", "rs", "md", "bak", "tmp", "swp", "lock", "pem", "env", "ini", "toml",
       "yml", "conf", "log", "sql", "db", "zip", "tar.gz", "TXT", "Html", "jpeg", "ico", "pdf", "mp4", "woff2", "webmanifest", "min.js", "d.ts", "x", "1", "~", "orig", "gitignore"]
WHOLE = [".env", ".git", ".htaccess", ".htpasswd", ".DS_Store", "robots.txt", "favicon.ico", "index", "index.htm", "index.php", "default.html", "README", "Makefile", "LICENSE", "con", "nul", "aux",
         "null", "undefined", "admin", "api", "static", "public", "private", "secret", "etc", "passwd", "proc", "dev", "tmp", "home", "root", "src", "Cargo.toml", "node_modules", "a", "A", "_", "__", "-", "--",
         "a-b", "a_b", "a.b.c.d", "..a", "a..", "a..b", "....", "~", "~a", "a~", "$a", "$HOME", "!", "a!b", "a'b", "a(b)", "a,b", "a;b", "a=b", "a:b", "a@b", "a&b", "a+b", "*", "a*", "**", ":", ":a", "0", "00",
         "1e3", "-1", "x" * 63, "x" * 64, "x" * 100, "x" * 127, "x" * 128, "x" * 200, "x" * 250, "x" * 255]

PIECES = [t for t in harvest.TEXTS if "/" not in t and "\0" not in t and len(t.encode()) < 100 and t.strip(".")]
EXT += [t.lstrip(".") for t in PIECES if t.lstrip(".") and all(c.isascii() and (c.isalnum() or c in "!$&'()+,-.;=@_~") for c in t)][:20]
WHOLE += [t for t in PIECES if all(c.isascii() and (c.isalnum() or c in "!$&'()+,-.;=@_~") for c in t)][:30] + ["n" * n for n in harvest.sizes(255)]
TAILS = [".html", ".htm", ".gz", ".br", ".txt", ".js", ".json", ".md", ".php", ".bak", ".orig", ".tmp", ".min", ".map", "~", ".1", ".", ".zip", "-min", ".en", "_", " ", "%20", "%2e", "%00", ".d", ".swp",
         ".index.html", "/index.html", "/index.htm", "/index", "/default.html", "/.", "//", "/"] + [t for t in PIECES if t.isascii()][:20]
HEADS = [".", "_", "~", "-", "%2e", "./", "index.", "cached-"] + [t for t in PIECES if t.isascii()][:20]


def plain_name(t):
    return t and t.strip(".") and all(c.isascii() and (c.isalnum() or c in "!$&'()+,-.;=@_~") for c in t)


def relatives(r, sid):
    """Files whose names are those of others with something before or behind; only the one asked for counts."""
    s = Site(r, sid)
    D = s.base + ["pub"]
    vp = r.choice(["/files", "/", "/s/t"])
    s.static(s.ops, vp, D)
    pre = ("" if vp == "/" else vp) + "/"
    for k, name in enumerate(["a", "b.js", "c.tar.gz", "d.d/e", "UPPER.Html", "x.html", "index", "f/index.html"]):
        at = ["%d" % k] + name.split("/")
        stem = at[-1]
        there, asked = [], []
        others = [at[:-1] + [h + stem] for h in HEADS] + [at[:-1] + [stem + t] for t in TAILS] + [at[:-1] + [v] for v in
                  (stem.lower(), stem.upper(), stem.swapcase(), stem.title(), stem.split(".")[0], stem.rsplit(".", 1)[0], stem.replace(".", "_"), stem[:-1], stem[1:], stem + stem)]
        others += [at + [t] for t in ("index.html", "index", ".html", stem)] + [at[1:], at[:-1]]
        for q in others:
            q = [x for x in "/".join(q).split("/") if x]
            if q != at and q not in asked:
                asked.append(q)
                if all(plain_name(x) for x in q) and r.random() < 0.5:
                    there.append(q)
        me = r.random() < 0.7
        for q in ([at] if me else []) + there:
            if not clash(s, D + q) and tuple(D + q) not in s.files:
                s.write(D + q, "file %s of %s" % ("/".join(q), sid))
        for q in [at] + asked:
            t = pre + "/".join(q)
            if all(c.isascii() and (c.isalnum() or c in "!$%&'()+,-./;=@_~") for c in t):
                s.get(t)
        if me:
            s.remove(D + at)
            s.get(pre + "/".join(at))
    return s.scenario()


def kinds_site(r, sid):
    """Files of every kind of content, size and name."""
    s = Site(r, sid)
    D = s.base + ["pub"]
    vp = r.choice(["/files", "/", "/s/t"])
    s.static(s.ops, vp, D)
    pre = "" if vp == "/" else vp
    data = [dictionary.code(c) for c in dictionary.BINARY + [t.encode() for t in r.sample(dictionary.TEXTS, 60)]] + ["@%d:%d" % (n, r.randrange(10 ** 6)) for n in dictionary.SIZES]
    names = ["f." + e for e in EXT] + WHOLE
    data += [s.content(r.choice(["text", "html", "bin"])) for _ in range(max(0, len(names) - len(data)))]
    r.shuffle(data)
    for k, d in enumerate(data):
        if k < len(names):
            p = D + ["d"] * r.choice([0, 0, 1]) + [names[k]]
        else:
            p = D + ["n", "%d.%s" % (k, r.choice(EXT))]
        if names and k < len(names) and names[k] == "d":
            continue
        s.write(p, d)
        s.get(pre + "/" + "/".join(p[len(D):]))
    for q in range(2, 60, 7):
        # deep below
        p = D + ["deep"] * q + ["f"]
        if not clash(s, p):
            s.write(p, "content %s %d" % (sid, q))
            s.get(pre + "/" + "/".join(p[len(D):]))
    return s.scenario()


def clash(s, p):
    """A file where another path needs a directory, or the other way round."""
    p = tuple(p)
    return any(q[:len(p)] == p or p[:len(q)] == q for q in s.files)


def history_site(prop, r, sid, g):
    s = Site(r, sid)
    D = s.base + ["pub"]
    vp = r.choice(["/s", "/", "/a/b"])
    mounted = prop == "F01" and r.random() < 0.3
    ops = [] if mounted else s.ops
    s.static(ops, vp, D)
    pre = vpath(r, vp)
    if mounted:
        s.ops.append({"op": "mount", "path": "/m", "ops": ops, "default": False, "clone": False})
        pre = "/m" + pre
    s.mkdir(D + ["d"])
    s.mkdir(s.base + ["pubx"])
    rels = list(g["rels"])
    for act, p, c in g["hist"]:
        full = s.base + p
        # a place may hold a file only where no directory is needed; the model's places never clash
        if act == "write":
            s.write(full, "%s %s" % (c, sid))
        else:
            s.remove(full)
        for rel in r.sample(rels, 25):
            s.get(pre + (spelled(r, rel) if prop == "F01" and r.random() < 0.3 else "/".join(rel)))
    for rel in rels:
        s.get(slashes(r, pre + "/".join(rel)))
    return s.scenario()


def block(sc, res):
    lines = [dict(BLANK, e="app", h="-")]
    it = iter(res["outcomes"])

    def go(ops):
        for op in ops:
            k = op["op"]
            if k == "mount":
                assert next(it) == "open"
                lines.append(dict(BLANK, e="open"))
                go(op["ops"])
                lines.append(dict(BLANK, e="mount", path=op["path"], ok=next(it)))
            elif k == "scope":
                assert next(it) == "open"
                lines.append(dict(BLANK, e="open"))
                go(op["ops"])
                lines.append(dict(BLANK, e="mount", path="/" + op["path"], ok=next(it)))
            elif k in ("static", "staticdir"):
                vp = op["path"] if k == "static" else op["dir"]
                lines.append({"e": "static", "h": op["h"], "dir": op["D"]})
                lines.append(dict(BLANK, e="route", path=vp + "/*", m="GET", h=op["h"], ok=next(it)))
            elif k == "route":
                lines.append(dict(BLANK, e="route", path=op["path"], m=op["m"], h=op["h"], ok=next(it)))
            elif k == "mw":
                lines.append(dict(BLANK, e="mw", path=op["path"], h=op["h"], ok=next(it)))

    go(sc["ops"])
    got = {e["r"]: e for e in res["events"] if e["e"] in ("answer", "lost")}

    def one(st):
        a = got.get(st["r"], {"e": "lost"})
        path = st["target"].partition("?")[0]
        lines.append({"e": "get", "r": st["r"], "m": st["method"], "path": path,
                      "status": a["status"] if a["e"] == "answer" else "lost", "body": a.get("body", "")})

    for st in sc["steps"]:
        k = st["s"]
        if k == "write":
            lines.append({"e": "write", "p": st["p"], "sum": common.summary(common.expand(st["data"]))})
        elif k in ("remove", "mkdir"):
            lines.append({"e": k, "p": st["p"]})
        elif k == "req":
            one(st)
        elif k == "burst":
            for q in st["reqs"]:
                one(q)
    return lines


def check(prop):
    run = common.Run(prop)
    r = run.rng
    job = run.pool.submit(run.generate, "MCStatic.tla", "MCStatic4.cfg" if run.thorough else "MCStatic.cfg")
    run.build()
    scratch = os.path.join(run.work, "fs")
    cwd = os.path.join(scratch, "w")
    os.makedirs(cwd)
    scs = {}
    for k in range(run.scale(70, 1200)):
        sc = random_site(prop, r, "k%d" % k, scratch)
        scs[sc["id"]] = sc
    for k in range(run.scale(2, 12) if prop == "F02" else run.scale(1, 4)):
        sc = kinds_site(r, "kinds%d" % k)
        scs[sc["id"]] = sc
    for k in range(run.scale(4, 30) if prop == "F02" else run.scale(1, 6)):
        sc = relatives(r, "rel%d" % k)
        scs[sc["id"]] = sc
    gens = job.result()
    for k, g in enumerate(r.sample(gens, min(len(gens), run.scale(24, 400)))):
        sc = history_site(prop, r, "h%d" % k, g)
        scs[sc["id"]] = sc
    probes = mounted_probes(r) if prop == "F02" else {}
    results = run.execute(list(scs.values()) + list(probes.values()), cwd=cwd)
    blocks = [(sid, block(sc, results[sid])) for sid, sc in scs.items()]
    known = common.known_findings(prop)
    for sid, sc in probes.items():
        b = block(sc, results[sid])
        # the recorded finding is exactly: 404 for a file that exists
        if b[-1]["status"] == "404" and "static-in-mounted" in known:
            run.known = [known["static-in-mounted"]]
        else:
            scs[sid] = sc
            blocks.append((sid, b))
    ls = [l for _, b in blocks for l in b if l["e"] == "get"]
    run.coverage.update(sites=len(scs), requests=len(ls), answered_with_a_file=sum(1 for l in ls if l["status"] == "200"),
                        refused=sum(1 for l in ls if l["status"] == "404"))
    run.sample({"ops": scs["k0"]["ops"], "steps": scs["k0"]["steps"][:12]})
    run.validate("TraceStatic.tla", blocks, describe(scs))
    return run.finish(assumptions=[
        "no symbolic links below the served directory; directories are named relative to the working directory",
        "percent escapes in file names, '.' and '..' segments are only checked for containment",
    ])


def mounted_probes(r):
    out = {}
    for k, how in enumerate(["scope", "mount"]):
        s = Site(r, "probe%d" % k)
        D = s.base + ["pub"]
        s.write(D + ["a.txt"], "probe content %d" % k)
        ops = []
        s.static(ops, "/files", D)
        s.ops.append({"op": how, "path": "v1" if how == "scope" else "/v1", "ops": ops, "default": False, "clone": False})
        s.get("/v1/files/a.txt")
        out[s.sid] = s.scenario()
    return out
