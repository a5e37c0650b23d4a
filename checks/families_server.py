"""Families of served applications: every text of the dictionary in every place, every size, long chains.
No expectation is computed here."""

import dictionary as D
import gen_server as G
import harvest

POST = {"method": "POST", "c": "c", "s": "req"}


def base(sid, ops, progs, steps):
    return {"id": sid, "kind": "app", "ops": ops, "progs": progs, "names": [], "mode": "new", "steps": steps}


def req(rid, target, **kw):
    return dict({"s": "req", "r": rid, "c": "c", "method": "POST", "target": target, "headers": []}, **kw)


def groups(items, n):
    return [items[k:k + n] for k in range(0, len(items), n)]


def some(run, items, quick):
    """All of them in the thorough tier; a part, another for every seed, in the quick one."""
    items = list(items)
    if run.thorough:
        return items
    must = [i for i in items if D.is_fresh(i)][:300]
    rest = [i for i in items if not D.is_fresh(i)]
    return must + run.rng.sample(rest, min(len(rest), quick))


def one_each(sid, progs_of, per=50, mws=(), methods=lambda: "POST"):
    """One route for every program."""
    out = []
    for k, group in enumerate(groups(progs_of, per)):
        ops = [{"op": "mwroot", "h": h} for h, _ in mws]
        progs = dict(mws)
        steps = []
        for j, p in enumerate(group):
            h = "h%d" % j
            m = methods()
            ops.append({"op": "route", "path": "/" + h, "m": m, "h": h})
            progs[h] = p
            steps.append(req("r%d" % j, "/" + h, method=m))
        out.append(base("%s%d" % (sid, k), ops, progs, steps))
    return out


def answers(run):
    """Bodies of every kind and size, header values of every kind, all statuses."""
    r = run.rng
    items = [["resp", "200", [["x-one", "1"]], D.code(t)] for t in D.TEXTS]
    items += [["resp", r.choice(["200", "200", "404", "500", "302"]), [], "@%d:%d" % (n, r.randrange(1000))] for n in D.SIZES]
    items += [["resp", "200", [[r.choice(G.RHEADERS), v], ["x-two", "2"]], "b"] for v in D.headers()]
    items += [["resp", str(n), [["x-one", "1"]], r.choice(["b", "<p>x</p>", "{}"])] for n in range(200, 600) if n not in (204, 205, 304)]
    items += [["resp", "200", [["x-one", ""], ["x-two", "2"]], "b"], ["resp", "200", [["x-two", "2"], ["x-two", ""]], "b"]]
    items = some(run, items, 420)
    return one_each("say", [[i] for i in items], mws=[("m1", [["next", "pass"], ["seen"]])], methods=lambda: r.choice(["POST", "GET", "GET"] + G.METHODS))


def failures(run):
    """Errors of every text."""
    r = run.rng
    items = [[r.choice([["err", t], ["err", t], ["errkind", r.choice(["general", "param", "json", "form", "jsonparse"]), t], ["errif", "x-rid", t]])] for t in D.TEXTS]
    items += [[["errkind", "jsonparse", t]] for t in G.NOJSON]
    items += [[["err", "e" * n]] for n in D.SIZES if n <= 2900]  # with what a middleware puts around it below 3000
    out = []
    items = some(run, items, 250)
    r.shuffle(items)
    depths = [1, 1, 2, 3, 5, 8, 9, 10, 12, 16, 17, 33]
    per = -(-len(items) // len(depths))
    for k, n in enumerate(depths):
        # through this many middleware, which let it pass or put something around it
        at = r.randrange(n)
        mws = [("m%d" % j, [["next", r.choice(["pass", "wrap"]) if j == at else "pass"]]) for j in range(n)]
        out += one_each("fail%d-" % k, items[k * per:(k + 1) * per], mws=mws, methods=lambda: r.choice(["POST", "GET", "GET"] + G.METHODS))
    return out


EDGES = ["x ", " x", "x\n", "x\r\n", "\tx\t", " ", "", "\n", "x.", "X", "x  y", "\u00a0x\u00a0", "\"x\"", "{x}", "x\u0000", "\u00e9", "<x>", "%41", "no such thing: x; y", "e" * 300]


def levels(run):
    """Errors whose texts have something at their ends, through every number of middleware."""
    r = run.rng
    out = []
    deep = run.scale(22, 70)
    for k in range(run.scale(2, 8)):
        ops, progs, steps = [], {}, []
        at = set(r.sample(range(deep), r.choice([0, 0, 1, 2])))
        for j in range(deep):
            path = "/" + "/".join("l" * (j + 1))
            ops.append({"op": "mw", "path": path, "h": "m%d" % j})
            progs["m%d" % j] = [["next", "wrap" if j in at else "pass"]]
            for i, m in enumerate(r.sample(G.METHODS, 3)):
                h = "h%d-%d" % (j, i)
                t = r.choice(EDGES) if i else r.choice(EDGES[:8])
                progs[h] = [r.choice([["err", t], ["err", t], ["errkind", r.choice(["general", "param", "json", "form", "jsonparse"]), t]])]
                ops.append({"op": "route", "path": path, "m": m, "h": h})
                steps.append(req("r%d-%d" % (j, i), path, method=m))
        r.shuffle(ops)
        out.append(base("level%d" % k, ops, progs, steps))
    return out


INSTRUCTIONS = [["get", "S"], ["hdr", "x-a"], ["hdrall", "x-b"], ["method"], ["path"], ["query"], ["param", "p"], ["param", "nope"], ["pint", "p"], ["qp"], ["qp1"], ["seen"], ["take"], ["form"], ["json"], ["form1"], ["json1"],
                ["add", "C", "w"], ["put", "C", "w"], ["mut", "C", "w"], ["drop", "C"], ["ext", "C"], ["sethdr", "x-c", "w"], ["apphdr", "x-c", "w"], ["delhdr", "x-c"], ["noresp"], ["resp", "201", [["x-one", "1"]], "b"],
                ["setstatus", "202"], ["pushhdr", "x-two", "2"], ["clearhdrs"], ["echo"], ["mut", "S", "w"], ["sleep", "1"], ["yield"]]


def undisturbed(run):
    """A value of every kind stays what it is whatever else is done, inside and outside."""
    r = run.rng
    out = []
    natives = ["A", "B", "string", "M1", "M2", "S2", "W1", "W2", "boxed", "bytes", "arc", "opt", "pair", "big", "n0"]
    kinds = natives + G.STD
    turns = []
    for _ in range(run.scale(2, 6)):
        r.shuffle(kinds)
        turns += groups(list(kinds), 18)
    for k, group in enumerate(turns):
        ops, progs, steps = [{"op": "state", "h": "cfg"}], {}, []
        alias = {}
        for j, kind in enumerate(group):
            if kind in natives:
                t = kind
            else:
                t = next(n for n in ["n%d" % i for i in range(1, 16)] + ["A", "B", "M1", "M2", "W1", "W2"] if n not in alias and n not in group)
                alias[t] = kind
            ins = r.sample(INSTRUCTIONS, len(INSTRUCTIONS))
            if r.random() < 0.5:
                # there is an answer from the start
                ins.sort(key=lambda i: (i[0] != "resp", i[0] == "noresp"))
            cut = r.choice([0, len(ins) // 2, len(ins)])
            look = lambda part: [x for i in part for x in (i, ["get", t])]
            progs["m%d" % j] = [["add", t, "v%d" % j], ["apphdr", "x-b", "u"]] + look(ins[:cut]) + [["next", "pass"], ["get", t], ["hdrall", "x-b"]] + look(r.sample(INSTRUCTIONS, 8))
            progs["h%d" % j] = [["get", t]] + look(ins[cut:]) + ([["mut", t, "z"], ["get", t]] if r.random() < 0.5 else [])
            ops += [{"op": "mw", "path": "/%d" % j, "h": "m%d" % j}, {"op": "route", "path": "/%d/:p" % j, "m": "POST", "h": "h%d" % j}]
            steps.append(dict(req("r%d" % j, "/%d/7?a=1" % j, headers=[["x-a", "0"], ["x-b", "1"]]), body=r.choice(["a=1", "{}", '{"a":1}', ""]), cl=True))
        sc = base("calm%d" % k, ops, progs, steps)
        sc["kinds"] = alias
        out.append(sc)
    return out


def carried(run):
    """Requests that carry these texts in all their places, one after the other and at once."""
    r = run.rng
    out = []
    vals = some(run, D.headers(False), 110)
    for k, group in enumerate(groups(vals, 40)):
        ops = [{"op": "mwroot", "h": "m1"}] + [{"op": "route", "path": p, "m": "POST", "h": h} for p, h in (("/x/:p", "h1"), ("/w/*", "h2"), ("/a", "h3"))]
        progs = {"m1": [["hdr", "x-a"], ["hdrall", "x-multi"], ["query"], ["next", "pass"], ["hdr", "x-a"]],
                 "h1": [["param", "p"], ["qp"], ["echo"]], "h2": [["path"], ["echo"]], "h3": [["qp"], ["hdr", "x-tag"], ["echo"]]}
        steps = []
        for j, v in enumerate(group):
            u = D.uri(v) or "e"
            q = req("r%d" % j, r.choice(["/x/%s" % u, "/w/a/%s" % u, "/a"]) + r.choice(["", "?a=" + u, "?%s=1&b=%s" % (u, u)]),
                    headers=[["x-tag", D.code(v)], ["x-a", D.code(v)], ["x-multi", D.code(v)], ["x-multi", "z"]][: r.choice([1, 2, 4])])
            if r.random() < 0.6:
                q.update(body=D.code(v), cl=True)
            steps.append(q)
        steps.append({"s": "burst", "reqs": [dict(q, c="", r=q["r"] + "b") for q in r.sample(steps, min(12, len(steps)))]})
        out.append(base("carry%d" % k, ops, progs, steps))
    return out


def attached(run):
    """Values of every kind, attached and in headers; seen inside and, on the way out, outside."""
    r = run.rng
    out = []
    texts = some(run, D.TEXTS, 130)
    heads = some(run, D.headers(), 130)
    ops, progs, steps = [{"op": "state", "h": r.choice(texts)}], {}, []
    for k in range(max(len(texts), len(heads))):
        t, v = texts[k % len(texts)], heads[k % len(heads)]
        a, b = r.choice(G.PAIRS)
        h, m = "h%d" % k, "m%d" % k
        ops += [{"op": "mw", "path": "/" + h, "h": m}, {"op": "route", "path": "/" + h, "m": "POST", "h": h}]
        u = r.choice(G.UNITS)
        few = [["add", u, "on"]] if r.random() < 0.3 else []
        progs[m] = few + [["add", a, t], ["hdr", "x-a"], ["sethdr", "x-b", v or "e"], ["get", b], ["next", "pass"], ["get", a], ["hdr", "x-b"], ["get", "S"], ["get", u]]
        progs[h] = [["get", u], ["get", r.choice(G.UNITS)], ["get", a], ["hdr", "x-b"], ["hdrall", "x-a"], r.choice([["mut", a, t + "2"], ["add", b, t], ["sethdr", "x-b", "n" + v], ["delhdr", "x-b"], ["sethdr", "x-a", "9"]]),
                    ["get", a], ["get", b], ["get", "S"], ["hdr", "x-b"]]
        steps.append(req("r%d" % k, "/" + h, headers=[["x-a", "v" * r.choice([512, 1025, 2049, 2999]) if r.random() < 0.12 else D.code(r.choice(heads))], ["x-b", "0"]][: r.choice([0, 1, 2])]))
        if len(steps) == 40 or k == max(len(texts), len(heads)) - 1:
            out.append(base("att%d" % len(out), ops, progs, steps))
            ops, progs, steps = [{"op": "state", "h": r.choice(texts)}], {}, []
    return out


def bodies(run):
    """Bodies of every kind, read in every way, twice."""
    r = run.rng
    reads = [["take"], ["form"], ["json"], ["form1"], ["json1"]]
    items = some(run, [t.encode() for t in D.TEXTS] + D.BINARY, 200)
    out = []
    for k, group in enumerate(groups(items, 50)):
        ops = [{"op": "mw", "path": "/q", "h": "m1"}]
        progs = {"m1": [["query"], ["next", "pass"], ["take"]]}
        steps = []
        for j, b in enumerate(group):
            h = "h%d" % j
            path = r.choice(["", "/q"]) + "/" + h
            ops.append({"op": "route", "path": path, "m": "POST", "h": h})
            t = r.choice(G.TYPES)
            look = [["qp"], ["query"], ["hdr", "content-type"], ["get", t], ["method"], ["path"], ["hdrall", "x-a"]]
            progs[h] = [["add", t, "on" if t in G.UNITS else "v"], r.choice(reads), r.choice(look), r.choice(reads), ["get", t], r.choice(look), ["echo"]]
            q = req("r%d" % j, path + "?a=1", body=D.code(b), cl=True)
            if r.random() < 0.3:
                q["headers"] = [["content-type", r.choice(["application/json", "application/x-www-form-urlencoded", "text/plain", ""])]]
            steps.append(q)
        out.append(base("body%d" % k, ops, progs, steps))
    return out


def states(run):
    """Application states of every kind, asked for twice."""
    r = run.rng
    out = []
    for k, t in enumerate(some(run, D.TEXTS, 12)):
        ops = [{"op": "state", "h": t}, {"op": "mwroot", "h": "m1"}, {"op": "route", "path": "/a", "m": "POST", "h": "h1"}]
        progs = {"m1": [["get", "S"], ["mut", "S", "x"], ["next", "pass"], ["get", "S"]], "h1": [["get", "S"], ["add", "S", "y"], ["echo"]]}
        out.append(base("state%d" % k, ops, progs, [req("r%d" % j, "/a", c=r.choice("cd"), headers=r.choice([[], [["connection", r.choice(KEEP)]]])) for j in range(4)]))
        if k < len(G.STATES):
            G.restate(r, out[-1], G.STATES[k])
    return out


KIN = [["map1", "map2", "map3", "btree", "set", "hdrmap"], ["strings", "pairs", "wide", "bytes", "array"], ["opt", "optarc", "result", "error"],
       ["string", "str", "cow", "boxstring", "arcstring", "boxed", "arc", "pathbuf", "n0"], ["u32", "u64", "usize", "i32", "i64", "f64", "atomic"], ["instant", "systime", "duration"],
       ["addr", "ip", "uri", "method", "hdrval"], ["mutex", "arcmutex", "atomic", "any"], ["two", "pair", "array", "value"], ["W1", "W2", "M1", "M2", "A", "B"]]


def relatives(run):
    """Kinds that have much in common (the same generic type, the same contents otherwise wrapped), attached to one request."""
    r = run.rng
    out = []
    own = ["string", "boxed", "bytes", "arc", "opt", "pair", "n0", "A", "B", "M1", "M2", "W1", "W2"]
    sets = KIN * run.scale(1, 5)
    pool = sorted({t for g in KIN for t in g})
    sets += [r.sample(pool, 6) for _ in range(run.scale(6, 40))]
    r.shuffle(sets)
    for k, part in enumerate(groups(sets, 2)):
        used = {t for g in part for t in g}
        free = ["n%d" % i for i in range(1, 16)] + ["big", "S2", "C"]
        names = {t: t for t in used if t in own}
        alias = {}
        for t in sorted(used - set(own)):
            names[t] = free.pop(0)
            alias[names[t]] = t
        ops, progs, steps = [{"op": "state", "h": "cfg"}], {}, []
        for j, g in enumerate(part * 2):
            ts = [names[t] for t in r.sample(g, len(g))]
            cut = r.choice([0, len(ts) // 2, len(ts)])
            more = []
            for t in r.sample(ts, len(ts)):
                more += [r.choice([["add", t, "w"], ["put", t, "w"], ["mut", t, "w"], ["drop", t], ["ext", t]])] + [["get", q] for q in r.sample(ts, min(4, len(ts)))]
            progs["m%d" % j] = [[r.choice(["add", "put"]), t, "v-%s" % t] for t in ts[:cut]] + [["next", "pass"]] + [["get", t] for t in ts]
            progs["h%d" % j] = [[r.choice(["add", "add", "put"]), t, "v-%s" % t] for t in ts[cut:]] + [["get", t] for t in r.sample(ts, len(ts))] + more
            ops += [{"op": "mw", "path": "/%d" % j, "h": "m%d" % j}, {"op": "route", "path": "/%d" % j, "m": "POST", "h": "h%d" % j}]
            steps.append(req("r%d" % j, "/%d" % j))
        sc = base("kin%d" % k, ops, progs, steps)
        sc["kinds"] = alias
        out.append(sc)
    return out


def many_kinds(run):
    """Very many kinds of values attached to one request, and read again inside and outside."""
    r = run.rng
    out = []
    kinds = ["n%d" % k for k in range(16)] + ["A", "B", "C", "string", "M1", "M2", "S2", "W1", "W2", "boxed", "bytes", "arc", "opt", "pair", "big", "unit", "unit2"]
    val = lambda t: "on" if t in G.UNITS else "v-%s-%d" % (t, r.randrange(9))
    for k in range(run.scale(2, 8)):
        ops, progs, steps = [{"op": "state", "h": "cfg"}], {}, []
        for j, n in enumerate([3, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33]):
            ts = r.sample(kinds, n)
            cut = r.choice([0, n, n // 2, n - 1])
            progs["m%d" % j] = [["add", t, val(t)] for t in ts[:cut]] + [["next", "pass"]] + [["get", t] for t in r.sample(ts, min(n, 6))]
            progs["h%d" % j] = [[r.choice(["add", "add", "put"]), t, val(t)] for t in ts[cut:]] + [["get", t] for t in r.sample(ts, n)] + \
                [r.choice([["add", t, val(t)], ["mut", t, val(t)], ["drop", t]]) for t in r.sample(ts, 2)] + [["get", t] for t in r.sample(ts, min(n, 5))] + [["get", "S"]]
            ops += [{"op": "mw", "path": "/%d" % j, "h": "m%d" % j}, {"op": "route", "path": "/%d" % j, "m": "POST", "h": "h%d" % j}]
            steps.append(req("r%d" % j, "/%d" % j))
        out.append(base("kinds%d" % k, ops, progs, steps))
    return out


def slow(run):
    """Requests whose bodies take their time, with others passing them by, and the slow ones finishing in any order."""
    r = run.rng
    out = []
    reads = {"j": [["json"]], "f": [["form"]], "t": [["take"]], "j1": [["json1"]], "f1": [["form1"]], "e": []}
    bodies = ['{"a":1}', "a=1&b=2", "[1,2]", "a=x", "x" * 300, '{"a":"' + "y" * 200 + '"}', "a=" + "z" * 250]
    for k in range(run.scale(6, 40)):
        ops = [{"op": "state", "h": "cfg"}, {"op": "mwroot", "h": "m1"}]
        progs = {"m1": [["get", "S"], ["hdr", "x-tag"], ["next", "pass"], ["get", "A"]]}
        for h, p in reads.items():
            progs[h] = [["add", "A", "v-" + h], ["qp"]] + p + [["get", "A"], ["hdr", "x-tag"]] + ([["echo"]] if r.random() < 0.7 or h == "e" else [["resp", "200", [], "done-" + h]])
            ops.append({"op": "route", "path": "/%s/:p" % h, "m": "POST", "h": h})

        def ask(rid, c):
            h = r.choice(list(reads))
            return dict(req(rid, "/%s/%s?n=%s" % (h, rid, rid), c=c, headers=[["x-tag", "tag-" + rid]]), body=r.choice(bodies), cl=True)
        many = r.choice([1, 1, 2, 3, 5, 9, 17, 33])
        steps, waiting = [], []
        for j in range(many):
            q = ask("s%d" % j, "s%d" % j)
            n = len(q["body"])
            steps += [{"s": "open", "c": q["c"]}, dict(q, s="send", hold=r.choice([1, n, n // 2, n - 1]) or 1)]
            waiting.append(q)
            if r.random() < 0.4 and many < 9:
                steps.append(ask("p%d" % j, r.choice("cd")))
        steps.append({"s": "burst", "reqs": [dict(ask("b%d" % j, ""), c="") for j in range(4)]})
        steps += [ask("q%d" % j, r.choice("cd")) for j in range(4)]
        r.shuffle(waiting)
        for j, q in enumerate(waiting):
            steps += [{"s": "rest", "r": q["r"], "c": q["c"]}, {"s": "recv", "r": q["r"], "c": q["c"]}]
            if j < 5:
                steps.append(ask("z%d" % j, "d"))
        out.append(base("slow%d" % k, ops, progs, steps))
    return out


KEEP = ["keep-alive", "Keep-Alive", "KEEP-ALIVE", "keep-alive, x-a", "TE", "x-foo", "te, keep-alive", "keep-alive,keep-alive"]


def kept(run):
    """One connection, many requests, with everything a Connection header may say short of closing."""
    r = run.rng
    out = []
    for k in range(run.scale(2, 10)):
        ops = [{"op": "state", "h": "cfg"}, {"op": "mwroot", "h": "m1"}] + [{"op": "route", "path": "/a/:p", "m": m, "h": "h" + m} for m in G.METHODS]
        progs = {"m1": [["get", "S"], ["mut", "S", "x"], ["hdrall", "connection"], ["next", "pass"], ["get", "S"]]}
        for m in G.METHODS:
            progs["h" + m] = [["get", "S"], ["add", "S", m], ["echo"]]
        steps = []
        for j in range(40):
            q = req("r%d" % j, "/a/%d" % j, method=r.choice(G.METHODS), c=r.choice("cccd"))
            if r.random() < 0.7:
                q["headers"] = [["connection", r.choice(KEEP)]]
            if r.random() < 0.3:
                q["headers"] = q["headers"] + [["keep-alive", "timeout=%d" % r.randrange(1, 9)], ["x-tag", "t%d" % j]]
            if q["method"] == "POST" and r.random() < 0.4:
                q.update(body="b%d" % j, cl=True)
            steps.append(q)
        out.append(base("kept%d" % k, ops, progs, steps))
    return out


def chains(run):
    """Very many middleware around a handler; one of them may fail, answer, or mind the answer."""
    r = run.rng
    out = []
    for k, n in enumerate(some(run, [31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 257], 6)):
        ops = [{"op": "route", "path": "/a/b", "m": "POST", "h": "h"}, {"op": "route", "path": "/a/e", "m": "POST", "h": "e"}]
        progs = {"h": [["seen"], ["resp", "201", [["x-one", "h"]], "done"]], "e": [["err", "no"]]}
        for j in range(n):
            h = "m%d" % j
            ops.insert(r.randrange(len(ops) + 1), r.choice([{"op": "mwroot", "h": h}, {"op": "mw", "path": r.choice(["/", "/a", "/a/b", "/a"]), "h": h}]))
            if r.random() < 0.1:
                progs[h] = r.choice([[["next", "recover"], ["seen"]], [["next", "wrap"]], [["add", "A", h], ["next", "pass"], ["get", "A"]], [["next", "pass"], ["setstatus", "202"]]])
            elif r.random() < 0.02:
                progs[h] = r.choice([[["errif", "x-fail", "f"], ["next", "pass"]], [["next", "pass"], ["errif", "x-fail", "late"]]])
        steps = [req("r%d" % j, r.choice(["/a/b", "/a/b", "/a/e"]), headers=[["x-fail", "1"]] if j == 2 else []) for j in range(4)]
        out.append(base("chain%d" % k, ops, progs, steps))
    return out


LENGTHS = [60, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 800, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 2500]


def lengths(run):
    """Paths, queries, headers and bodies of all lengths, in pairs that differ at one place only: in the last letter, in the first, or somewhere."""
    r = run.rng
    out = []
    for k in range(run.scale(2, 16)):
        ops = [{"op": "state", "h": "cfg"}, {"op": "mwroot", "h": "m1"}, {"op": "mw", "path": "/v", "h": "m2"}] + [
            {"op": "route", "path": p, "m": "POST", "h": h} for p, h in (("/v/:p", "h1"), ("/v/:p/:q", "h2"), ("/w/*", "h3"), ("/a", "h4"))]
        progs = {"m1": [["get", "S"], ["get", "A"], ["query"], ["next", "pass"], ["get", "A"]], "m2": [["hdr", "x-tag"], ["add", "A", "v"], ["next", "pass"], ["get", "A"]],
                 "h1": [["param", "p"], ["get", "S"], ["qp"], ["path"], ["echo"]], "h2": [["param", "p"], ["param", "q"], ["get", "A"], ["mut", "S", "x"], ["echo"]],
                 "h3": [["path"], ["qp"], ["get", "S"], ["echo"]], "h4": [["qp"], ["hdr", "x-tag"], ["get", "S"], ["take"], ["echo"]]}
        steps, burst = [], []
        ns = r.sample(LENGTHS, run.scale(9, 18)) + r.sample(harvest.sizes(2700), min(10, len(harvest.sizes(2700))))
        for j, n in enumerate(ns):
            s = "".join(r.choice("abcdefgh") for _ in range(n))
            where = r.choice([0, n - 1, n - 1, r.randrange(n)])
            others = [s[:where] + c + s[where + 1:] for c in "XY"]
            place = r.randrange(5) if n <= 1200 else 4  # what is logged and echoed stays below 3000 bytes
            c = r.choice("cd")
            for q, v in enumerate(r.choice([[s, others[0], s], [s] + others, [s, others[0], others[1], s]])):
                # the same at one place after the other; what differs counts
                t = {0: "/v/%s" % v, 1: "/v/%s/%s" % (v[: n // 2] or "x", v[n // 2:]), 2: "/w/%s" % v, 3: "/a?a=%s" % v, 4: "/a"}[place]
                if place == 3 and r.random() < 0.5:
                    t = "/v/1?a=1&%s=2" % v
                st = req("r%d-%d" % (j, q), t, c=c)
                if place == 4:
                    if r.random() < 0.5 or n > 400:
                        st["headers"] = [["x-tag", v]]
                    else:
                        st.update(body=v, cl=True)
                steps.append(st)
                if r.random() < 0.4:
                    burst.append(dict(st, c="", r=st["r"] + "b"))
        steps.append({"s": "burst", "reqs": burst[:24]})
        out.append(base("len%d" % k, ops, progs, steps))
    return out


def counted(run):
    """Numbers of the source under test as counts: of headers, of requests on one connection, of middleware, of milliseconds."""
    r = run.rng
    out = []
    for n in harvest.sizes(400)[:12]:
        ops = [{"op": "state", "h": "cfg"}, {"op": "route", "path": "/a", "m": "POST", "h": "h1"}, {"op": "route", "path": "/e", "m": "POST", "h": "e"},
               {"op": "route", "path": "/t", "m": "POST", "h": "t"}, {"op": "route", "path": "/p", "m": "POST", "h": "p"}]
        progs = {"h1": [["get", "S"], ["mut", "S", "y"], ["echo"]], "e": [["err", "no"]], "p": [["panic"]], "t": [["resp", "200", [["x-h%d" % k, "v%d" % k] for k in range(min(n, 90))], "b"]]}
        mws = n if n <= 140 and r.random() < 0.5 else 1
        for k in range(mws):
            ops.insert(0, {"op": "mwroot", "h": "m%d" % k})
        steps = [req("r%d" % k, r.choice(["/a", "/a", "/e", "/t", "/none"])) for k in range(min(n + 3, 130))]
        if mws == 1 and r.random() < 0.6:
            # only failures, then an ordinary one
            steps = [req("f%d" % k, r.choice(["/e", "/p"]), c="c%d" % (k % 2)) for k in range(min(n + 3, 130))] + steps[:6]
        if n <= 80:
            steps.append(req("many", "/a", headers=[["x-k%d" % k, "v"] for k in range(n)]))
        steps.append({"s": "burst", "reqs": [req("b%d" % k, "/a", c="") for k in range(min(n + 1, 48))]})
        out.append(base("count%d" % n, ops, progs, steps))
    return out


PLAN = {
    "P01": [chains, failures, levels, counted], "P02": [answers, kept, counted], "P03": [failures, levels, counted], "P04": [answers, failures, carried, attached, kept, lengths], "P05": [states, kept, attached, lengths, counted],
    "P06": [carried, kept, lengths, counted, slow], "P07": [attached, many_kinds, relatives, undisturbed, carried, lengths, counted], "B02": [bodies, relatives, undisturbed, carried, lengths],
}


def scenarios(prop, run):
    out = {}
    for f in PLAN[prop]:
        scs = f(run)
        if prop == "P04" and not run.thorough:
            scs = run.rng.sample(scs, min(len(scs), 3))
        for sc in scs:
            out[sc["id"]] = sc
    return out
