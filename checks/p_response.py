"""Checks S01 and S02: building responses."""
import os

import common
import dictionary
import gen_response as G

FILES = {"f.txt": b"file", "empty.bin": b"", "bin.dat": bytes(range(256)), "big.txt": common.expand("@70000:5"), "sub/g.html": b"<p>g</p>"}


def describe(info):
    def f(key, k, line, lines):
        return {"program": line.get("prog"), "refused_line": line, "executor_input": info.get(key),
                "note": "the response built by this program is not the one its operations call for"}
    return f


def check(prop):
    run = common.Run(prop)
    r = run.rng
    jobs = [run.pool.submit(run.generate, "MCResponse.tla", "MCResponse.cfg")]
    if run.thorough or prop == "S01":
        jobs.append(run.pool.submit(run.generate, "MCResponse.tla", "MCResponse4.cfg"))
    deep = run.pool.submit(run.model, "MCResponse.tla", "MCResponse5.cfg") if run.thorough else None
    run.build()
    for name, data in FILES.items():
        path = os.path.join(run.work, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "wb").write(data)
    files = sorted(FILES)
    progs = []
    served = []
    n = run.scale(1200, 20000)
    for k in range(n):
        length = r.choice([0, 1]) if prop == "S02" else r.choice([1, 2, 3, 5, 8, 14, 25])
        progs.append(G.program(r, files, length, odd=0.1, big=0.03))
    for k in range(run.scale(480, 8000)):
        length = r.choice([0, 0, 1]) if prop == "S02" else r.choice([1, 2, 4, 8, 16])
        served.append(G.program(r, files, length, odd=0.0, big=0.05))
    extra = said(r, prop, files)
    progs += extra
    served += r.sample(extra, run.scale(150, 2500) if len(extra) > 2500 or not run.thorough else len(extra))
    for g in jobs:
        gen = [x["prog"] for x in g.result()]
        if prop == "S02":
            gen = [p for p in gen if len(p) <= 2] + r.sample(gen, run.scale(500, 2000))
        progs += gen
        plain = [p for p in gen if not any(o[1:2] in (["204"], ["205"]) for o in p)]
        served += r.sample(plain, min(len(plain), run.scale(300, 4000)))
    if deep:
        deep.result()
    served = [p for p in served if sendable(p)]

    blocks, info = [], {}
    names = {"e": "files", "names": [[f, common.summary(d)] for f, d in sorted(FILES.items())]}
    # in process
    scs = []
    per = 100
    for k in range(0, len(progs), per):
        scs.append({"id": "c%d" % k, "kind": "inproc", "cmds": [{"c": "resp", "prog": G.for_executor(p, r)} for p in progs[k:k + per]]})
    out = run.execute(scs)
    for sc, k in zip(scs, range(0, len(progs), per)):
        lines = [names]
        for p, res in zip(progs[k:k + per], out[sc["id"]]["results"]):
            lines.append(line("built", p, res))
        blocks.append((sc["id"], lines))
    # through a server
    scs = []
    per = 30
    for k in range(0, len(served), per):
        ps = served[k:k + per]
        ops = [{"op": "route", "path": "/%03d" % j, "m": "GET", "h": "h%d" % j} for j in range(len(ps))]
        steps = [{"s": "req", "r": "r%d" % j, "c": "c", "method": "GET", "target": "/%03d" % j, "headers": []} for j in range(len(ps))]
        scs.append({"id": "s%d" % k, "kind": "app", "ops": ops, "names": [], "mode": "new", "hex": True, "steps": steps,
                    "progs": {"h%d" % j: [["build", G.for_executor(p, r)]] for j, p in enumerate(ps)}})
        info["s%d" % k] = scs[-1]
    out = run.execute(scs)
    for sc, k in zip(scs, range(0, len(served), per)):
        lines = [names]
        got = {e["r"]: e for e in out[sc["id"]]["events"] if e["e"] in ("answer", "lost")}
        for j, p in enumerate(served[k:k + per]):
            res = got.get("r%d" % j, {"e": "lost"})
            lines.append(line("served", p, res if res["e"] == "answer" else "lost"))
        blocks.append((sc["id"], lines))
    run.coverage["programs_in_process"] = len(progs)
    run.coverage["programs_served"] = len(served)
    run.sample(G.for_spec(progs[0]))
    run.sample(G.for_spec(served[0]))
    run.validate("TraceResponse.tla", blocks, describe(info))
    return run.finish(assumptions=[
        "the executor reads a response's status, headers and body through its public accessors, or over loopback HTTP",
        "floating point numbers in JSON are only checked to be floating point numbers",
    ])


def said(r, prop, files):
    """Every text and byte string of the dictionary, as every kind of value."""
    out = []

    def ways(b):
        st = G.status(r, 0)
        alone = [["respond", b]], [["ctx_respond", b]], [["new", b]], [["pair", st, b]], [["ctx_pair", st, b]]
        later = [["new", {"k": "unit"}], ["set_body", b]], [["rheader", b, "x-a", "1"]], [["ok"], ["html", b]], [["respond", b], ["with_status", st]], [["ok"], ["set_header", "x-a", "1"], ["html", b]]
        return r.sample(alone, 2) + r.sample(later, 1 if prop == "S02" else 3)

    for t in dictionary.TEXTS:
        b = {"k": "text", "s": common.summary(t), "x": t, "lit": r.choice("sS")}
        out += ways(b) + [[[r.choice(["some", "ctx_some"]), b]]]
        v = G.V("str", t.encode())
        out.append([["ctx_json", r.choice([v, G.V("arr", xs=[v]), G.V("obj", xs=[v], ns=[t.encode()])])]])
    for c in [t.encode() for t in r.sample(dictionary.TEXTS, 120)] + dictionary.BINARY:
        if len(c) <= 256:
            out += ways({"k": "bytes", "n": list(c)})
    for n in dictionary.SIZES:
        t = "@%d:%d" % (n, r.randrange(1000))
        out += ways({"k": "text", "s": common.summary(common.expand(t)), "x": t, "lit": "@"})
        if n < 600:
            out += ways({"k": "bytes", "n": [r.randrange(256) for _ in range(n)]})
    for v in dictionary.headers():
        out.append(r.choice([[["rheader", {"k": "unit"}, "x-a", v]], [["ok"], [r.choice(["set_header", "with_header", "set_header_str", "with_header_str"]), "x-a", v]],
                             [["ok"], ["set_header", "x-a", "0"], ["set_headers", [["x-b", v], ["x-a", v]]]], [["ctx_respond", {"k": "unit"}], ["with_header", "x-a", v]]]))
    for n in range(200, 600):
        if n not in (204, 205, 304):
            out.append(r.choice([[["status", str(n)]], [["ctx_status", str(n)]], [["pair", str(n), {"k": "unit"}]], [["ok"], ["set_status", str(n)]]]))
    return out


def sendable(p):
    return True


def line(e, prog, res):
    l = {"e": e, "prog": G.for_spec(prog)}
    if isinstance(res, str):
        return dict(l, status=res, headers=[], sum="", b=[])
    return dict(l, status=res["status"], headers=res["headers"], sum=res["body"], b=list(bytes.fromhex(res["hex"])))
