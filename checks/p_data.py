"""Checks B01, B03, B04: from bytes to values."""
import common
import gen_data as G
import harvest

ANY = {"t": "any"}
MAPLIST = G.DERIVED["MapList"]


def describe(info):
    def f(key, k, line, lines):
        return {"call": info[key][k] if isinstance(info[key], list) else info[key], "refused_line": line, "line_index": k,
                "note": "the specification gives another result for this call"}
    return f


def hexchunks(b, sizes):
    out, at = [], 0
    for n in sizes:
        out.append(b[at:at + n].hex())
        at += n
    assert at == len(b)
    return out


def check(prop):
    run = common.Run(prop)
    models = {"B01": [("MCBody.tla", "MCBody.cfg")],
              "B03": [("MCForm.tla", "MCForm.cfg"), ("MCForm.tla", "MCFormThree.cfg")],
              "B04": [("MCForm.tla", "MCFormThree.cfg")]}[prop]
    if run.thorough and prop != "B01":
        models = models + [("MCForm.tla", "MCFormThorough.cfg")]
    if prop == "B01":
        return b01(run)
    jobs = [run.pool.submit(run.model, m, c) for m, c in models]
    run.build()
    cmds, lines = (b03 if prop == "B03" else b04)(run)
    for j in jobs:
        j.result()
    return judge(run, cmds, lines)


def in_process(run, cmds, per=200):
    scs = [{"id": "c%d" % k, "kind": "inproc", "cmds": cmds[k:k + per]} for k in range(0, len(cmds), per)]
    out = run.execute(scs)
    return [x for sc in scs for x in out[sc["id"]]["results"]]


def judge(run, cmds, lines, per=50):
    results = in_process(run, cmds)
    blocks, info = [], {}
    for k in range(0, len(cmds), per):
        b, q = [], []
        for c, l, out in zip(cmds[k:k + per], lines[k:k + per], results[k:k + per]):
            if out == "baduri":
                continue
            b.append(dict(l, out=out))
            q.append(c)
        blocks.append(("b%d" % k, b))
        info["b%d" % k] = q
    for q in cmds[:2]:
        run.sample(q)
    outs = [l["out"] for _, b in blocks for l in b]
    run.coverage["calls"] = len(outs)
    run.coverage["calls_giving_an_error"] = sum(1 for x in outs if x == "err")
    run.validate("TraceData.tla", blocks, describe(info))
    return run.finish(assumptions=[
        "the executor asks the decoder for exactly what derived types of the same shape ask for (checked against derived types on part of the inputs)",
        "floating point texts are only specified for simple decimals and for texts that cannot be numbers",
    ])


def form_call(b, sh, r, kind):
    if kind == "query":
        b = G.uri_safe(b)
        if len(b) > 60000:
            kind = "form"
        else:
            return ({"c": "query", "uri": "http://h/p?" + b.decode(), "shape": sh},
                    {"e": "query", "b": list(b), "sh": G.tshape(sh)})
    sizes = [len(b)]
    cmd = {"c": "form", "chunks": hexchunks(b, sizes), "whole": r.random() < 0.7, "shape": sh}
    return cmd, {"e": "form", "b": list(b), "sh": G.tshape(sh)}


def b03(run):
    r = run.rng
    cmds, lines = [], []

    def add(pair):
        cmds.append(pair[0])
        lines.append(pair[1])

    for k in range(run.scale(1500, 20000)):
        sh = G.target(r, plain=r.random() < 0.7)
        ps = G.pairs_for(sh, r, good=0.97)
        b = G.encode(ps, r)
        both = r.random() < 0.5
        add(form_call(b, sh, r, "query"))
        if both:
            add(form_call(b, sh, r, "form"))
        if k % 6 == 0:
            # the same fields as a map, with names the target does not have and nothing under them
            per = {}
            for n, v in ps:
                if v:
                    per.setdefault(n, []).append(v)
            for _ in range(r.choice([0, 1, 1, 2])):
                if sh["t"] == "struct":
                    per.setdefault(r.choice(["zz", "other", "unnamed"]), r.choice([[], [""], ["x", "y"]]))
            add(map_call(list(per.items()), sh))
    # long lists and many fields
    for k in range(run.scale(6, 60)):
        n = r.choice([50, 100, 257, 400])
        sh = {"t": "struct", "fields": [{"n": "a", "s": G.L(G.T("u16")), "d": False}, {"n": "b", "s": G.T("string"), "d": False}]}
        ps = [("a", str(r.randrange(65536))) for _ in range(n)]
        ps.insert(r.randrange(n), ("b", "v" * r.choice([1, 300, 1025])))
        add(form_call(G.encode(ps, r, "min"), sh, r, r.choice(["query", "form"])))
        sh = G.DERIVED["MapOne"]
        ps = [("k%d" % q, r.choice(G.WORDS) or "e") for q in range(r.choice([40, 70, 130]))]
        add(form_call(G.encode(ps, r, "min"), sh, r, r.choice(["query", "form"])))
    # every punctuation, as a value and as a name
    for c in G.PUNCT:
        for v in G.around(c):
            for w in {"L": G.L(G.T("string")), r.choice("SO"): r.choice([G.T("string"), G.O(G.T("string")), G.O(G.L(G.T("string")))])}.values():
                sh = {"t": "struct", "fields": [{"n": "v", "s": w, "d": r.random() < 0.1}, {"n": "x", "s": G.O(G.T("string")), "d": False}]}
                add(form_call(b"v=" + G.spell(v, r, r.choice(["min", "mix"])) + r.choice([b"", b"", b"&x=1"]), sh, r, r.choice(["query", "form"])))
            if r.random() < run.scale(0.4, 1.0):
                b = r.choice([b"", b"a=1&"]) + G.spell(v, r, r.choice(["min", "mix"])) + r.choice([b"=1", b"=1", b"=x&x=2", b"=1&" + G.spell(v, r, "mix") + b"=2"])
                add(form_call(b, r.choice([G.DERIVED["MapOne"], MAPLIST]), r, r.choice(["query", "form"])))
    for v in G.MAGIC + G.WORDS:
        for w in (G.T("string"), G.L(G.T("string")), G.O(G.T("string"))):
            sh = {"t": "struct", "fields": [{"n": "v", "s": w, "d": r.random() < 0.3}]}
            add(form_call(b"v=" + G.spell(v, r, r.choice(["min", "mix"])), sh, r, r.choice(["query", "form"])))
        add(form_call(G.spell(v, r, r.choice(["min", "mix"])) + b"=1&k=" + G.spell(v, r, "mix"), MAPLIST, r, r.choice(["query", "form"])))
    # very many pairs: all of them count, the last as well
    for n in run.scale([1001, 1100, 2049], [1001, 1025, 1100, 2049, 4097]) + harvest.sizes(3000)[:10]:
        for kind in ("form", "query"):
            sh = {"t": "struct", "fields": [{"n": "a", "s": G.L(G.T("u16")), "d": False}, {"n": "b", "s": G.T("string"), "d": False}]}
            add(form_call(b"&".join(b"a=%d" % r.randrange(100) for _ in range(n)) + b"&b=x", sh, r, kind))
            add(form_call(b"&".join(b"k%d=%d" % (q, q % 7) for q in range(n)), G.DERIVED["MapOne"], r, kind))
    return cmds, lines


def field_map(sh, r):
    per = {}
    for n, v in G.pairs_for(sh, r, good=0.7):
        per.setdefault(n, []).append(v)
    if r.random() < 0.25:
        names = [f["n"] for f in sh.get("fields", [])] + ["other"]
        per[r.choice(names)] = r.choice([[], [""], ["", "1"], ["1", ""], []])
    return list(per.items())


def b04(run):
    r = run.rng
    cmds, lines = [], []

    def add(pair):
        cmds.append(pair[0])
        lines.append(pair[1])

    for k in range(run.scale(700, 10000)):
        sh = G.target(r)
        b = G.encode(G.pairs_for(sh, r, good=r.choice([0.4, 0.7, 0.9])), r)
        if r.random() < 0.5:
            b = G.spoil(b, r)
        add(form_call(b, sh, r, r.choice(["query", "form"])))
    # single values at and beyond the edges of each type
    for k in range(run.scale(500, 6000)):
        s = G.scalar(r) if r.random() < 0.9 else {"t": r.choice(["f32", "f64"])}
        v = G.value(s, r, 0.4) if r.random() < 0.75 else r.choice(G.MAGIC)
        k = r.randrange(4)
        if r.random() < 0.12:
            v = r.choice([v, "12", "0", "-3", "true", "a"]) + r.choice([".5", ".", ".0", ";", ",", " ", "/", "x", "_", "e1", "%", "+", "-", ":", "'", "=1", ".json", "\n", "\u00a0"])
        if k == 0:
            has = r.random() < 0.95
            ps = [["q", "7"]] + ([["p", v]] if has else [])
            add(({"c": "param", "params": ps, "key": "p", "type": s["t"]},
                 {"e": "param", "b": list(v.encode()), "has": "yes" if has else "no", "sh": s}))
        elif k == 1:
            sh = {"t": "struct", "fields": [{"n": "v", "s": s, "d": False}]}
            per = [["v", [v] + ["9"] * r.choice([0, 0, 1])]] + ([["w", []]] if r.random() < 0.2 else [])
            add(map_call(per, sh))
        else:
            w = s if k == 2 else r.choice([G.O(s), G.L(s), {"t": "new", "s": s}]) if s["t"][0] != "f" else s
            sh = {"t": "struct", "fields": [{"n": "v", "s": w, "d": r.random() < 0.1}]}
            add(form_call(b"v=" + G.spell(v, r, r.choice(["min", "mix", "raw"])), sh, r, r.choice(["query", "form"])))
    # every such text for every kind of field
    for v in G.MAGIC:
        for w in (G.T(r.choice(G.INTS)), G.T("bool"), G.T("string"), G.O(G.T(r.choice(G.INTS))), G.O(G.T("string")), G.O(G.T("bool")),
                  G.L(G.T(r.choice(G.INTS))), G.L(G.T("string")), G.T("char")):
            sh = {"t": "struct", "fields": [{"n": "v", "s": w, "d": False}]}
            add(form_call(b"v=" + G.spell(v, r, r.choice(["min", "mix"])), sh, r, r.choice(["query", "form"])))
        s = G.T(r.choice(G.INTS + ["bool", "string", "char"]))
        add(({"c": "param", "params": [["p", v]], "key": "p", "type": s["t"]}, {"e": "param", "b": list(v.encode()), "has": "yes", "sh": s}))
    for c in G.PUNCT:
        for v in r.sample(G.around(c, "1", "2"), run.scale(4, 10)):
            s = G.T(r.choice(G.INTS + ["bool", "char"]))
            w = r.choice([s, G.L(s), G.L(s), G.O(s), G.O(G.L(s))])
            sh = {"t": "struct", "fields": [{"n": "v", "s": w, "d": False}]}
            add(form_call(b"v=" + G.spell(v, r, r.choice(["min", "mix"])), sh, r, r.choice(["query", "form"])))
            add(({"c": "param", "params": [["p", v]], "key": "p", "type": s["t"]}, {"e": "param", "b": list(v.encode()), "has": "yes", "sh": s}))
    for k in range(run.scale(400, 5000)):
        sh = G.target(r)
        add(map_call(field_map(sh, r), sh))
    # JSON
    for k in range(run.scale(450, 6000)):
        if r.random() < 0.5:
            sh, b = ANY, G.jbytes(G.jany(r, 4), r)
        else:
            sh = G.target(r) if r.random() < 0.8 else dict(G.DERIVED[r.choice(["Plain", "Lists", "Opts", "Pairs"])])
            v = G.jvalue(sh, r, r.choice([0.8, 0.97]))
            while not isinstance(v, G.Obj):
                v = G.jvalue(sh, r, 1)
            b = G.jbytes(v, r)
        if r.random() < (0.5 if sh is ANY else 0.15):
            b = G.jspoil(b, r)
            if sh is not ANY and b[:1] == b"[":
                continue
        c = {"c": "json", "chunks": [b.hex()], "whole": True}
        if sh is not ANY:
            c["shape"] = sh
        add((c, {"e": "json", "b": list(b), "sh": G.tshape(sh)}))
    # bodies that break off are errors
    for k in range(run.scale(60, 600)):
        kind = r.choice(["form", "json"])
        b = b"a=1&b=2" if kind == "form" else r.choice([b"12", b"[1]", b"{}", b"null"])
        sizes = G.cut(b, r)
        ch = hexchunks(b, sizes)
        ch.insert(r.randrange(len(ch) + 1), "!")
        c = {"c": kind, "chunks": ch, "whole": False}
        if kind == "form":
            c["shape"] = MAPLIST
        add((c, {"e": "broken"}))
    # long values are neither cut nor refused
    lens = harvest.sizes(20000)[:12]
    for k in range(run.scale(4, 30) + len(lens)):
        n = lens.pop() if lens else r.choice([255, 256, 1023, 1025, 4096, 5000, 9000])
        text = "".join(r.choice("abcdefghij") for _ in range(n))
        sh = {"t": "struct", "fields": [{"n": "v", "s": G.T("string"), "d": False}, {"n": "w", "s": G.L(G.T("i64")), "d": False}]}
        b = ("w=5&v=%s&w=-6" % text).encode()
        add(form_call(b, sh, r, "form"))
        add(form_call(b, sh, r, "query"))
        add(({"c": "json", "chunks": [("[\"%s\", 1]" % text).encode().hex()], "whole": True},
             {"e": "json", "b": list(("[\"%s\", 1]" % text).encode()), "sh": ANY}))
    return cmds, lines


def map_call(per, sh):
    per = [[n, list(vs)] for n, vs in per]
    seen = {}
    for n, vs in per:
        seen[n] = vs
    per = [[n, vs] for n, vs in seen.items()]
    return ({"c": "map", "entries": per, "shape": sh},
            {"e": "map", "tab": [{"n": list(n.encode()), "vs": [list(v.encode()) for v in vs]} for n, vs in per], "sh": G.tshape(sh)})


# ---------------------------------------------------------------- B01
def b01(run):
    r = run.rng
    job = run.pool.submit(run.generate, "MCBody.tla", "MCBody.cfg")
    run.build()
    gens = job.result()
    groups = {}  # name -> (kind, shape, bytes, [sizes])
    for h in gens:
        g = groups.setdefault((h["name"], h["kind"]), [h["kind"], MAPLIST if h["kind"] == "form" else None, bytes(h["body"]), []])
        g[3].append(h["chunks"])
    for k in range(run.scale(250, 3000)):
        kind = r.choice(["form", "json"])
        if kind == "form":
            sh = G.target(r)
            b = G.encode(G.pairs_for(sh, r), r)
            if r.random() < 0.2:
                b = G.spoil(b, r)
        else:
            sh = None if r.random() < 0.6 else dict(G.DERIVED["Opts"])
            v = G.jany(r, 4) if sh is None else G.jvalue(sh, r)
            b = G.jbytes(v, r)
            if r.random() < 0.2:
                b = G.jspoil(b, r)
        if r.random() < 0.5:
            # bytes that might mean an end, a beginning or nothing to a reader that looks at single chunks
            for _ in range(r.choice([1, 1, 2, 4])):
                i = r.choice([0, len(b), r.randrange(len(b) + 1), r.randrange(len(b) + 1)])
                b = b[:i] + r.choice([b"\r\n", b"\n", b"\r\n\r\n", b"\0", b" ", b"\t", b"&", b"=", b"%", b"+", b";", b"\xef\xbb\xbf", b"--", b"\x1a", b"\xff", b",", b"\"", b"}", b"]"]) + b[i:]
        groups[("r", k)] = [kind, sh, b, [G.cut(b, r) for _ in range(8)]]
    for k in range(run.scale(10, 60)):
        n = 2300000 if k in (2, 5) else r.choice([1000, 8191, 8192, 8193, 16384, 65536, 100000, 300000])
        if k % 2:
            b = ("w=5&v=%s&w=-6&x=%%C3%%A9" % ("v" * n)).encode()
            kind, sh = "form", MAPLIST
        else:
            b = ("{\"k\": [%s], \"s\": \"%s\\u00e9\"}" % (",".join("1234567" for _ in range(n // 16)), "é" * (n // 4))).encode()
            kind, sh = "json", None
        cuts = [G.cut(b, r, "two"), G.cut(b, r, "few"), G.cut(b, r, "rand"), G.cut(b, r, "empties"), [1] * 50 + [len(b) - 50],
                [len(b) - 50] + [1] * 50, [4096] * (len(b) // 4096) + [len(b) % 4096]]
        if n < 10000:
            cuts.append([1] * len(b))
        groups[("big", k)] = [kind, sh, b, cuts]
    # numbers of the source under test, as lengths of bodies, of chunks and as counts of chunks
    for k, n in enumerate(harvest.sizes(100000)[:30]):
        kind = "form" if k % 2 else "json"
        body = (lambda z: b"v=" + b"x" * (z - 2)) if kind == "form" else (lambda z: b"\"" + b"x" * (z - 2) + b"\"")
        b = body(max(n, 3) + r.choice([0, 0, 5, 300]))
        cuts = [[n, len(b) - n], [len(b) - n, n], G.cut(b, r, "few"), G.cut(b, r, "empties")]
        if n <= 5000:
            cuts += [[1] * n + [len(b) - n], [0] * n + [len(b)]]
        groups[("size", k)] = [kind, MAPLIST if kind == "form" else None, b, [[z for z in c if z >= 0] for c in cuts if min(c) >= 0]]
    cmds, owner = [], []
    for key, (kind, sh, b, cuts) in groups.items():
        base = {"c": kind}
        if sh is not None:
            base["shape"] = sh
        cmds.append(dict(base, chunks=[b.hex()], whole=True))
        owner.append(key)
        for sizes in cuts:
            cmds.append(dict(base, chunks=hexchunks(b, sizes), whole=False))
            owner.append(key)
    results = in_process(run, cmds, 100)
    blocks, info = {}, {}
    for key, c, out in zip(owner, cmds, results):
        name = "%s/%s" % key
        if len(out) > 300:
            out = common.summary(out)
        blocks.setdefault(name, [{"e": "reset"}]).append({"e": "read", "g": name, "out": out})
        info.setdefault(name, [None]).append(c if len(str(c)) < 4000 else {"c": c["c"], "chunk_sizes": [len(x) // 2 for x in c["chunks"]][:60]})
    served(run, groups, blocks, info)
    run.sample(cmds[1])
    run.sample({"divisions_enumerated": len(gens)})
    run.coverage["readings"] = len(cmds)
    run.coverage["bodies"] = len(groups)
    run.validate("TraceData.tla", list(blocks.items()), describe(info))
    return run.finish(assumptions=[
        "in-process bodies are hyper streams yielding exactly the given chunks; over the network the kernel may merge writes",
    ])


def served(run, groups, blocks, info):
    """The same over the network: content-length in several writes, and chunked transfer."""
    r = run.rng
    keys = [k for k in groups if k[0] == "big"] + r.sample([k for k in groups if k[0] != "big"], run.scale(24, 200))
    scs = []
    for n, key in enumerate(keys):
        kind, sh, b, cuts = groups[key]
        try:
            text = "%" + b.hex()
        except ValueError:
            continue
        ins = "form" if kind == "form" else "json"
        steps = []
        variants = [{}] + [v for sizes in r.sample(cuts, min(3, len(cuts))) for v in (
            {"split": [z for z in sizes if z][:40], "pause": 1}, {"chunks": [z for z in sizes if z][:40], "pause": 1})]
        for q, v in enumerate(variants):
            steps.append(dict({"s": "req", "r": "r%d" % q, "method": "POST", "target": "/p", "body": text, "cl": True}, **v))
        scs.append({"id": "n%d" % n, "kind": "app", "ops": [{"op": "route", "path": "/p", "m": "POST", "h": "h"}],
                    "progs": {"h": [[ins], ["resp", "200", [], "done"]]}, "steps": steps})
    out = run.execute(scs)
    for sc in scs:
        ev = out[sc["id"]]["events"]
        name = "served/" + sc["id"]
        blocks[name] = [{"e": "reset"}]
        info[name] = [None]
        for st in sc["steps"]:
            mine = [e for e in ev if e.get("r") == st["r"]]
            obs = [e["v"] for e in mine if e["e"] == "obs"]
            ans = [e for e in mine if e["e"] == "answer"]
            got = obs[0] if len(obs) == 1 and ans else "lost"
            blocks[name].append({"e": "read", "g": name, "out": got})
            info[name].append({k: st[k] for k in st if k != "body" or len(st[k]) < 2000})
