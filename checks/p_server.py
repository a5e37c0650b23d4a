"""Checks P01..P07 and B02: how requests are served."""
import common
import families_server
import gen_server as G
import harvest


def describe(scs):
    def f(key, k, line, lines):
        keys = key if isinstance(key, tuple) else (key,)
        return {"scenario": [scs[x] for x in keys], "refused_line": line, "line_index": k,
                "trace": lines if len(lines) < 500 else lines[:500],
                "note": "the specification does not allow refused_line after the lines before it"}
    return f


def style(prop, r):
    S = G.Style
    kin = r.choice(G.FAMILIES)
    if prop == "P01":
        kind = r.randrange(4)
        inner = lambda: r.choice([["seen"], ["seen"], ["get", "A"], ["add", "A", G.value(r)], ["get", "B"], ["add", "B", G.value(r)]])
        return S(r, inner=inner, early=[0.05, 0.25, 0.1, 0.0][kind], fail=[0.05, 0.1, 0.25, 0.0][kind], late=[0.1, 0.1, 0.3, 0.0][kind],
                 recover=0.35, touch=0.4, preset=0.3, panic=0.0, steps=2, noresp=0.1, bad=0.0)
    if prop == "P02":
        return S(r, inner=lambda: ["yield"], early=0.1, touch=0.35, rich=True, steps=1, noresp=0.12, recover=0.2, fail=0.03, preset=0.2)
    if prop == "P03":
        return S(r, inner=lambda: ["yield"], early=0.05, fail=0.25, late=0.15, panic=0.12, recover=0.3, touch=0.1, steps=1, rich=True, bad=0.2)
    if prop == "P04":
        inner = lambda: r.choice([["seen"], G.att(r), G.hdr(r), G.look(r)])
        return S(r, inner=inner, early=0.15, fail=0.15, late=0.1, panic=0.04, recover=0.3, touch=0.3, steps=2, rich=r.random() < 0.5, noresp=0.15, bad=0.05, preset=0.15)
    if prop == "P05":
        other = r.choice(["A", "S2", "M1"])
        inner = lambda: r.choice([["get", "S"], ["get", "S"], ["mut", "S", G.value(r)], ["add", "S", G.value(r)], ["put", "S", G.value(r)], ["drop", "S"], ["ext", "S"], ["get", other], ["add", other, G.value(r)]])
        return S(r, inner=inner, early=0.08, fail=0.08, panic=0.03, recover=0.3, late=0.05, steps=3)
    if prop == "P07":
        inner = lambda: G.att(r, kin) if r.random() < 0.6 else G.hdr(r)
        return S(r, inner=inner, early=0.05, fail=0.05, late=0.05, recover=0.4, steps=5, touch=0.1)
    if prop == "B02":
        inner = lambda: G.look(r) if r.random() < 0.78 else r.choice([G.hdr(r), G.att(r)])
        return S(r, inner=inner, early=0.05, fail=0.05, late=0.05, recover=0.2, steps=4)
    if prop == "P06":
        inner = lambda: r.choice([["yield"], ["yield"], ["sleep", "1"], G.look(r), G.att(r), G.hdr(r)])
        return S(r, inner=inner, early=0.04, fail=0.04, late=0.03, recover=0.2, steps=3, echo=0.7, panic=0.01)
    raise common.ToolError(prop)


SIZES = {  # apps quick, thorough; requests per app
    "P01": (130, 2500, 14), "P02": (130, 2500, 14), "P03": (90, 1500, 16), "P04": (70, 1200, 12),
    "P05": (90, 1500, 14), "P06": (50, 900, 16), "P07": (110, 2000, 10), "B02": (120, 2200, 10),
}


def finish_steps(steps):
    """A connection on which a body came in parts is not used again (the server may close it)."""
    parts = set()
    for st in steps:
        if st["s"] == "req":
            if st["c"] in parts:
                st["fresh"] = True
                parts.discard(st["c"])
            if "chunks" in st:
                parts.add(st["c"])
    return steps


def app(prop, r, sid, chain=None):
    st = style(prop, r)
    nmw = (0, 4)
    x = r.random()
    if chain:
        nmw = chain
    elif prop in ("P01", "P07", "B02", "P04") and x < 0.6:
        nmw = (2, 6)
    ops, progs, _, _ = G.application(r, st, nmw=nmw, nroute=(1, 3))
    sc = {"id": sid, "kind": "app", "ops": ops, "progs": progs, "names": [], "mode": "new"}
    if prop == "P05":
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            ops.insert(r.randrange(len(ops) + 1), {"op": "state", "h": "st-%d" % r.randrange(1000)})
    elif prop in ("P06", "P07", "P04") and r.random() < 0.4:
        ops.append({"op": "state", "h": "state"})
    if r.random() < 0.1 and prop != "P04":
        sc["mode"] = "default"
    if any(op["op"] == "state" for op in ops) and r.random() < 0.35:
        G.restate(r, sc)
    return sc


def requests(prop, r, sc, n):
    conns = r.choice([["c"], ["c", "d"], ["c", "d", "e"]])
    big = prop in ("P02",) and False
    out = []
    for k in range(n):
        q = G.request(r, "r%d" % k, sc["ops"], conn=r.choice(conns), big=big,
                      bodies={"B02": 0.85, "P06": 0.5}.get(prop, 0.25))
        if out and r.random() < 0.2:
            # nearly the request before
            p = out[-1]
            q["target"], q["method"], q["c"] = G.near(r, p["target"]), p["method"], p["c"]
        out.append(q)
    return out


def plain_steps(prop, r, sc, n):
    reqs = requests(prop, r, sc, n)
    steps = []
    k = 0
    while k < len(reqs):
        x = r.random()
        if prop in ("P05", "P06", "P03") and x < (0.35 if prop == "P06" else 0.12):
            m = r.choice([2, 4, 8, 16])
            group = reqs[k:k + m]
            k += m
            steps.append({"s": "burst", "reqs": [dict(q, c="") for q in group]})
        elif prop in ("P06", "P02", "P03") and x < (0.6 if prop == "P06" else 0.2):
            m = r.choice([2, 3, 4])
            c = "p%d" % k
            group = [dict(q, s="send", c=c) for q in reqs[k:k + m]]
            k += m
            for q in group:
                q.pop("chunks", None)
                q.pop("version", None)
            steps.append({"s": "open", "c": c})
            steps += group
            steps += [{"s": "recv", "c": c, "r": q["r"]} for q in group]
            steps.append({"s": "quiet", "c": c, "ms": 5})
        elif prop == "P03" and x < 0.3:
            c = "x%d" % k
            steps.append({"s": "raw", "c": c, "data": r.choice([
                "GET / HTTP/1.1\r\n", "garbage\r\n\r\n", "%00ff00ff", "POST /a HTTP/1.1\r\nhost: x\r\ncontent-length: 10\r\n\r\nabc",
                "GET / HTTP/9.9\r\n\r\n", "", "GET /a HTTP/1.1\r\nhost: x\r\nx-rid: " + "y" * 200])})
            if r.random() < 0.7:
                steps.append({"s": "close", "c": c})
        else:
            steps.append(reqs[k])
            k += 1
    return finish_steps(steps)


def check(prop):
    run = common.Run(prop)
    jobs = models(run)
    run.build()
    apps, thorough, per = SIZES[prop]
    r = run.rng
    scs = {}
    pairs = []
    if prop in ("P02", "P03", "P06"):
        sc = slow(r, run.scale(11, 65))
        scs[sc["id"]] = sc
    for k in range(run.scale(apps, thorough)):
        sc = app(prop, r, "a%d" % k, chain=(18, 40) if k % 40 == 7 else None)
        sc["steps"] = plain_steps(prop, r, sc, per if k % 25 else per * 3)
        scs[sc["id"]] = sc
        if prop == "P04":
            pairs.append(with_logger(r, sc, scs))
    for sid, sc in families_server.scenarios(prop, run).items():
        scs[sid] = sc
        if prop == "P04":
            pairs.append(with_logger(r, sc, scs))
    if prop == "P03":
        sc = long_errors(r)
        scs[sc["id"]] = sc
    for n in [n for n in harvest.NUMBERS if 5 <= n <= 12000][:2] if prop in ("P02", "P03", "P06") else []:
        # it may be a time
        sc = slow(r, (n + 300) / 1000)
        sc["id"] = "slow%d" % n
        scs[sc["id"]] = sc
    if prop == "P02":
        sc = large(r)
        scs[sc["id"]] = sc
    if prop in ("P05", "P06"):
        for k in range(run.scale(2, 12)):
            sc = blast(r, "blast%d" % k, run.scale(4, 12))
            scs[sc["id"]] = sc
    if prop in ("P03", "P06"):
        for n in run.scale([150], [150, 600]):
            for sc in storms(r, n):
                scs[sc["id"]] = sc
    gens = [j.result() for j in jobs]
    for g in gens:
        if isinstance(g, list):
            replays(run, g, scs, pairs)
    of = {sid: key[0] for key in pairs for sid in key}
    for sid in list(scs):
        # twins have the same kinds
        first = scs[of.get(sid, sid)]
        if sid == first["id"]:
            G.alias(r, first)
    for sid in scs:
        if of.get(sid, sid) != sid:
            scs[sid]["kinds"] = scs[of[sid]].get("kinds", {})
    results = run.execute(list(scs.values()))
    blocks = []
    if prop == "P04":
        for key in pairs:
            lines = []
            for sid, twin in zip(key, "ABB"):
                lines += G.block(scs[sid], results[sid], twin)
            blocks.append((key, lines))
    else:
        for sid, sc in scs.items():
            blocks.append((sid, G.block(sc, results[sid])))
    ls = [l for _, b in blocks for l in b]
    for sid in list(scs)[:2]:
        run.sample({"ops": scs[sid]["ops"][:5], "steps": scs[sid]["steps"][:3]})
    run.coverage.update(
        apps=len(scs), requests=sum(1 for l in ls if l["e"] == "sent"), events=sum(1 for l in ls if l["e"] == "ev"),
        answers=sum(1 for l in ls if l["e"] == "answer"), answers_500=sum(1 for l in ls if l["e"] == "answer" and l["status"] == "500"),
        lost=sum(1 for l in ls if l["e"] == "lost"), panics=sum(1 for l in ls if l["e"] == "ev" and l["k"] == "panic"))
    run.validate("TraceServer.tla", blocks, describe(scs))
    return run.finish(assumptions=[
        "the executor's loopback client and log report faithfully what the server did",
        "HTTP framing headers (content-length, date, transfer-encoding, connection) are HTTP's own business",
    ])


def storms(r, n):
    """Many failures in a row, many requests held at once, many idle connections; then ordinary ones."""
    ops = [{"op": "mwroot", "h": "m1"}, {"op": "mw", "path": "/e", "h": "m2"}] + [
        {"op": "route", "path": "/" + k, "m": "POST", "h": k} for k in ("ok", "panic", "err", "held", "e")]
    progs = {"ok": [["yield"], ["echo"]], "panic": [["yield"], ["panic"]], "err": [["err", "no"]], "held": [["gate", "g"], ["echo"]],
             "m1": [["next", "pass"], ["seen"]], "m2": [["panicif", "x-fail"], ["next", "wrap"]], "e": [["echo"]]}

    def q(rid, path, c, s="req", **kw):
        return dict({"s": s, "r": rid, "c": c, "method": "POST", "target": path, "headers": [["x-tag", rid]]}, **kw)

    base = {"kind": "app", "ops": ops, "progs": progs, "names": [], "mode": "new"}
    out = []
    # failures one after the other, and at once
    for name, kinds in (("panics", ["panic"]), ("errors", ["err"]), ("mixed", ["panic", "err", "e", "ok"])):
        steps = []
        for k in range(n):
            kind = r.choice(kinds)
            st = q("a%d" % k, "/" + kind, "c%d" % (k % 3))
            if kind == "e" and r.random() < 0.5:
                st["headers"].append(["x-fail", "1"])
            steps.append(st)
        steps.append({"s": "burst", "reqs": [q("b%d" % k, "/" + r.choice(kinds), "") for k in range(40)]})
        steps += [q("z%d" % k, "/ok", r.choice(["c0", "c1", "z"])) for k in range(6)]
        out.append(dict(base, id="storm-%s-%d" % (name, n), steps=steps))
    # many held, others go on; then all are let go in another order
    m = min(n, 300)
    ids = ["h%d" % k for k in range(m)]
    steps = []
    for k, rid in enumerate(ids):
        steps += [{"s": "open", "c": rid}, q(rid, "/held", rid, s="send")]
    steps += [{"s": "gate", "r": rid, "g": "g"} for rid in ids]
    steps += [q("o%d" % k, "/ok", "o%d" % k) for k in range(5)]
    order = r.sample(ids, len(ids))
    for rid in order:
        steps += [{"s": "go", "r": rid, "g": "g"}, {"s": "recv", "c": rid, "r": rid}]
    out.append(dict(base, id="storm-held-%d" % n, steps=steps))
    # idle and half-open connections
    steps = []
    for k in range(m):
        if k % 3:
            steps.append({"s": "open", "c": "i%d" % k})
        else:
            steps.append({"s": "raw", "c": "i%d" % k, "data": r.choice(["", "POST /ok HTTP/1.1\r\nhost: x\r\ncontent-length: 9\r\n\r\nab", "GET /"])})
        if k % 25 == 24:
            steps.append(q("o%d" % k, "/ok", "o%d" % k))
    steps += [q("p%d" % k, "/ok", "p%d" % k) for k in range(5)]
    out.append(dict(base, id="storm-idle-%d" % n, steps=steps))
    # gone before being answered
    steps = []
    for k in range(m):
        steps += [{"s": "open", "c": "g%d" % k}, q("g%d" % k, r.choice(["/ok", "/panic", "/err"]), "g%d" % k, s="send"), {"s": "close", "c": "g%d" % k}]
        if k % 25 == 24:
            steps.append(q("o%d" % k, "/ok", "o%d" % k))
    out.append(dict(base, id="storm-gone-%d" % n, steps=steps))
    return out


def long_errors(r):
    """Errors with much to say."""
    ops = [{"op": "mwroot", "h": "m1"}, {"op": "mw", "path": "/q", "h": "m2"}]
    progs = {"m1": [["next", "pass"]], "m2": [["next", "recover"], ["resp", "200", [], "fine"]]}
    steps = []
    for k, n in enumerate([3001, 4095, 4096, 4097, 8192, 10000, 65535, 65536, 70000, 300000]):
        h = "h%d" % k
        text = "".join(r.choice("abcdefgh ") for _ in range(n - 1)) + "."
        ops.append({"op": "route", "path": r.choice(["/", "/q/"]) + h, "m": "GET", "h": h})
        progs[h] = [r.choice([["err", text], ["errkind", "general", text], ["errkind", "param", text], ["errif", "x-rid", text]])]
        steps += [{"s": "req", "r": "%s-%d" % (h, j), "c": "c", "method": "GET", "target": ops[-1]["path"], "headers": []} for j in range(2)]
    return {"id": "long-errors", "kind": "app", "ops": ops, "progs": progs, "names": [], "mode": "new", "steps": steps}


def large(r):
    """Large answers."""
    ops, progs, steps = [], {}, []
    for k, n in enumerate([500000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 2300000]):
        h = "h%d" % k
        ops.append({"op": "route", "path": "/" + h, "m": "GET", "h": h})
        progs[h] = [["resp", r.choice(["200", "404", "500"]), [["x-one", "1"]], "@%d:%d" % (n, r.randrange(1000))]]
        steps += [{"s": "req", "r": "%s-%d" % (h, j), "c": "c", "method": "GET", "target": "/" + h, "headers": []} for j in range(2)]
    return {"id": "large", "kind": "app", "ops": ops, "progs": progs, "names": [], "mode": "new", "steps": steps}


def slow(r, seconds):
    """Requests that take long, in the handler, in a middleware, or to arrive; connections idle meanwhile."""
    ms = int(seconds * 1000)
    ops = [{"op": "mwroot", "h": "m1"}, {"op": "mw", "path": "/m", "h": "m2"}, {"op": "mw", "path": "/e", "h": "m3"}] + [
        {"op": "route", "path": "/" + k, "m": "POST", "h": k} for k in ("h", "m", "e", "b", "p", "ok")]
    progs = {"m1": [["next", "wrap"]], "m2": [["sleep", str(ms // 2)], ["next", "pass"], ["sleep", str(ms // 2)]], "m3": [["next", "recover"]],
             "h": [["sleep", str(ms)], ["echo"]], "m": [["echo"]], "e": [["sleep", str(ms)], ["err", "late"]],
             "b": [["take"], ["echo"]], "p": [["sleep", str(ms)], ["panic"]], "ok": [["echo"]]}

    def q(rid, path, c="", **kw):
        return dict({"r": rid, "c": c, "method": "POST", "target": path, "headers": [["x-tag", rid]]}, **kw)

    steps = [q("a%d" % k, "/ok", "c%d" % k, s="req") for k in range(3)]
    group = [q("s%d" % k, p, takes=ms) for k, p in enumerate(["/h", "/h", "/m", "/e", "/p", "/h"])]
    group += [q("b%d" % k, "/b", body="a=1&b=%d" % k, cl=True, split=[3, 2], pause=ms // 3, takes=ms) for k in range(2)]
    group += [q("k%d" % k, "/b", body="a=1&b=%d" % k, chunks=[3, 2], pause=ms // 6, takes=ms) for k in range(2)]
    steps.append({"s": "burst", "reqs": group})
    steps += [q("z%d" % k, "/ok", "c%d" % (k % 4), s="req") for k in range(8)]
    return {"id": "slow", "kind": "app", "ops": ops, "progs": progs, "names": [], "mode": "new", "steps": steps}


def blast(r, sid, rounds):
    """Many connections, many requests at once, all with much of their own to carry."""
    ops = [{"op": "mwroot", "h": "m1"}, {"op": "mw", "path": "/x", "h": "m2"}, {"op": "state", "h": "cfg"}] + [
        {"op": "route", "path": p, "m": "POST", "h": h} for p, h in (("/x/:p", "h1"), ("/x/:p/y", "h2"), ("/w/*", "h3"))]
    progs = {"m1": [["get", "S"], ["mut", "S", "m1"], ["yield"], ["next", "pass"], ["get", "A"]],
             "m2": [["hdr", "x-tag"], ["add", "A", "v"], ["next", "pass"]],
             "h1": [["yield"], ["get", "S"], ["qp"], ["echo"]], "h2": [["sleep", "1"], ["get", "S"], ["add", "S", "h2"], ["echo"]],
             "h3": [["add", "A", "w"], ["yield"], ["echo"]]}
    size = r.choice([8, 70, 300])

    def q(k, c=""):
        own = "".join(r.choice("abcdef") for _ in range(size)) + str(k)
        st = {"r": "q%d" % k, "c": c, "method": "POST", "target": r.choice(["/x/%s", "/x/%s/y", "/w/a/%s"]) % (own if r.random() < 0.5 else k) + "?a=%s" % own,
              "headers": [["x-tag", own]]}
        if r.random() < 0.3:
            st.update(body="b=%s" % own, cl=True)
        return st

    steps, k = [], 0
    for _ in range(rounds):
        group = [q(k + j) for j in range(48)]
        k += len(group)
        steps.append({"s": "burst", "reqs": group})
    for _ in range(12):
        steps.append(dict(q(k, "c%d" % (k % 2)), s="req"))
        k += 1
    return {"id": sid, "kind": "app", "ops": ops, "progs": progs, "names": [], "mode": "new", "steps": steps}


def models(run):
    """Exhaustive models of the design, and the generators of histories and programs."""
    prop, pool = run.prop, run.pool
    jobs = []
    if prop in ("P01", "P03", "P05", "P06"):
        jobs.append(pool.submit(run.model, "MCServer.tla", "MCServer.cfg", 4))
        if run.thorough:
            jobs.append(pool.submit(run.model, "MCServer.tla", "MCServerGates.cfg", 6, 850))
        jobs.append(pool.submit(run.generate, "MCServer.tla", "GenServerTwo.cfg"))
        if run.thorough or prop == "P06":
            jobs.append(pool.submit(run.generate, "MCServer.tla", "GenServer.cfg"))
    if prop != "P06":
        # explores and checks all programs of this length, and prints them
        jobs.append(pool.submit(run.generate, "MCContext.tla", "MCContext4.cfg" if run.thorough else "MCContext3.cfg", 850))
    return jobs


# What MCServer's programs are, for the executor.
def server_progs():
    return {
        "m1": [["get", "S"], ["mut", "S", "m1"], ["next", "wrap"], ["seen"], ["get", "A"]],
        "ok": [["get", "S"], ["mut", "S", "h"], ["add", "A", "mine"], ["gate", "g"], ["get", "S"], ["echo"]],
        "two": [["gate", "g"], ["hdr", "x-tag"], ["gate", "k"], ["take"], ["echo"]],
        "err": [["gate", "g"], ["err", "no"]],
        "panic": [["gate", "g"], ["panic"]],
        "fast": [["get", "S"], ["echo"]],
    }


def history(g, sid):
    """A complete history of the model as a scenario."""
    ops = [{"op": "mwroot", "h": "m1"}, {"op": "mwroot", "h": "m2"}, {"op": "state", "h": "cfg"}]
    for k in sorted(set(g["kinds"].values())):
        ops.append({"op": "route", "path": "/" + k, "m": "GET", "h": k})
    steps = [{"s": "open", "c": c} for c in sorted(set(g["conn"].values()))]
    got = set()
    for act, rq, gate in g["acts"]:
        c = g["conn"][rq]
        if act == "send":
            steps.append({"s": "send", "r": rq, "c": c, "method": "GET", "target": "/%s?n=%s" % (g["kinds"][rq], rq),
                          "headers": [["x-tag", "tag-" + rq]]})
        elif act in ("gate", "go"):
            steps.append({"s": act, "r": rq, "g": gate})
        else:
            steps.append({"s": "recv", "r": rq, "c": c})
            got.add(rq)
    for rq in sorted(g["kinds"]):
        if rq not in got:
            steps.append({"s": "recv", "r": rq, "c": g["conn"][rq]})
    for c in sorted(set(g["conn"].values())):
        steps.append({"s": "quiet", "c": c, "ms": 2})
    return {"id": sid, "kind": "app", "ops": ops, "progs": server_progs(), "names": [], "mode": "new", "steps": steps}


def unclear(g):
    """An unsendable value that a later one under the same name replaces: either answer is right."""
    prog = g["m"] + g["h"]
    return any("\n" in ins[-1] for ins in prog if ins[0] == "pushhdr") and \
        sum(1 for ins in prog if ins[0] == "pushhdr" and ins[1] == "x-a") > 1


def batch(prop, r, gs, sid):
    """Many small programs in one application, each requested once."""
    # attached values of other kinds may stand for the model's: kinds are alike in the specification
    kinds = dict(zip("AB", r.choice(G.PAIRS))) if prop in ("P05", "P07") else {}

    def conv(p):
        p = [[i[0], kinds.get(i[1], i[1])] + i[2:] if i[0] in ("get", "add", "mut", "put", "drop", "ext") else i for i in p]
        return [[i[0], i[1], i[2], i[3][2:]] if i[0] == "resp" else i for i in p]
    ops, progs, steps = [], {}, []
    for k, g in enumerate(gs):
        path = "/%03d" % k
        ops.append({"op": "mw", "path": path, "h": "m%d" % k})
        ops.append({"op": "route", "path": path, "m": "POST", "h": "h%d" % k})
        progs["m%d" % k] = conv(g["m"])
        progs["h%d" % k] = conv(g["h"])
        steps.append({"s": "req", "r": "r%d" % k, "c": "c", "method": "POST", "target": path + "?q=1",
                      "headers": [["x-a", "0"], ["x-a", "1"]], "body": g["body"][2:], "cl": True})
    if prop == "P05":
        # once more, now that all of them have run
        steps += [dict(st, r=st["r"] + "-2") for st in steps]
    if prop in ("P05", "B02"):
        ops.append({"op": "state", "h": "cfg"})
    r.shuffle(ops)
    return {"id": sid, "kind": "app", "ops": ops, "progs": progs, "names": [], "mode": "new", "steps": steps}


def replays(run, gens, scs, pairs):
    r = run.rng
    if gens and "acts" in gens[0]:
        n = run.scale(450, 4500)
        for g in r.sample(gens, min(n, len(gens))):
            sid = "m%d" % len(scs)
            scs[sid] = history(g, sid)
        run.coverage["histories_replayed"] = run.coverage.get("histories_replayed", 0) + min(n, len(gens))
    elif gens:
        gens = [g for g in gens if not unclear(g)]
        n = run.scale(1600, 24000) // (2 if run.prop == "P04" else 1)
        gens = r.sample(gens, min(n, len(gens)))
        for k in range(0, len(gens), 40):
            sid = "g%d" % (k // 40)
            scs[sid] = batch(run.prop, r, gens[k:k + 40], sid)
            if run.prop == "P04":
                pairs.append(with_logger(r, scs[sid], scs))
        run.coverage["programs_replayed"] = run.coverage.get("programs_replayed", 0) + len(gens)


# ---------------------------------------------------------------- P04
def with_logger(r, sc, scs):
    """The same application with the logger: by default, and at random places."""
    sid = sc["id"]
    b = dict(sc, id=sid + "-default", mode="default")
    c = dict(sc, id=sid + "-placed")

    def place(ops, depth=0):
        ops = [dict(o, ops=place(o["ops"], depth + 1)) if "ops" in o else o for o in ops]
        for _ in range(r.choice([1, 1, 2]) if depth == 0 else r.choice([0, 1])):
            if r.random() < 0.5:
                op = {"op": "logger"}
            else:
                paths = [o["path"] for o in ops if o["op"] in ("route", "mw")] or ["/"]
                op = {"op": "loggerto", "path": r.choice(paths)}
            ops.insert(r.randrange(len(ops) + 1), op)
        return ops

    c["ops"] = place(sc["ops"])
    scs[b["id"]] = b
    scs[c["id"]] = c
    return (sid, b["id"], c["id"])
