"""Checks R01..R08: where requests go."""
import copy

import common
import families
import gen_routing as G

PLAN = {
    # property: [(profile, quick apps, thorough apps, requests per app)]
    "R01": [("mixed", 110, 1500, 22), ("plain", 40, 500, 22), ("mw", 40, 400, 18), ("big", 3, 40, 150), ("huge", 1, 6, 200), ("long", 15, 150, 20), ("deep", 10, 100, 20), ("fan", 15, 200, 24)],
    "R02": [("bound", 160, 2000, 26), ("mixed", 40, 400, 20), ("long", 25, 250, 22), ("big", 2, 20, 120)],
    "R03": [("wild", 170, 2000, 26), ("deep", 15, 150, 24), ("big", 2, 20, 120)],
    "R04": [("param", 150, 1800, 20), ("mount", 30, 300, 20), ("deep", 15, 150, 20), ("big", 2, 20, 120)],
    "R07": [("mw", 140, 1800, 20), ("fan", 20, 200, 20), ("mount", 40, 400, 18), ("mixed", 30, 300, 18), ("deep", 15, 150, 20), ("big", 3, 30, 120), ("huge", 1, 5, 150)],
}
MODELS = {
    "R01": ["MCRouteTrie.cfg"], "R02": ["MCRouteTrieSeg.cfg"], "R03": ["MCRouteTrieWild.cfg"],
    "R04": ["MCRouteTrieParam.cfg"], "R05": ["MCRouteTrie.cfg"], "R06": ["MCRouteTrie.cfg"],
    "R07": ["MCRouteTrieMw.cfg"], "R08": ["MCRouteTrieMount.cfg"],
}


def describe(scs):
    def f(key, k, line, lines):
        return {"scenario": scs[key] if not isinstance(key, tuple) else [scs[x] for x in key],
                "refused_line": line, "line_index": k, "trace": lines if len(lines) < 400 else lines[:400],
                "note": "the specification does not allow refused_line after the lines before it"}
    return f


def run_model(run, pool):
    cfgs = MODELS[run.prop]
    if run.thorough:
        cfgs = cfgs + ["MCRouteTrieThorough.cfg"]
    return [pool.submit(run.model, "MCRouteTrie.tla", c) for c in cfgs]


def check(prop):
    run = common.Run(prop)
    run.searcher = True
    model = run_model(run, run.pool)
    gens = generated(run)
    run.build()
    for m in model:
        m.result()
    if prop in PLAN:
        scs, blocks = plain(run, gens)
    else:
        scs, blocks = twins(run, gens)
    for k in list(scs)[:2]:
        run.sample({"ops": scs[k]["ops"][:6], "steps": scs[k]["steps"][:4]})
    run.coverage["apps"] = len(scs)
    run.coverage["requests"] = sum(1 for _, b in blocks for l in b if l["e"] == "req")
    run.coverage["registrations"] = sum(
        1 for _, b in blocks for l in b if l["e"] in ("route", "mw", "mount"))
    run.coverage["refused_registrations"] = sum(1 for _, b in blocks for l in b if l.get("ok") == "refused")
    run.coverage["answered_200"] = sum(1 for _, b in blocks for l in b if l.get("status") == "200")
    run.validate("TraceRouting.tla", blocks, describe(scs))
    return run.finish(assumptions=[
        "the executor's loopback client and log report faithfully what the server did",
        "registration happens before the server starts, as App::listen consumes the App",
    ])


def generated(run):
    """Histories enumerated by TLC from the specification (see GenRouting)."""
    return run.generate("GenRouting.tla", "GenRouting_%s.cfg" % run.prop, env={"PROP": run.prop})


def from_history(h, sid, rng):
    """A generated behaviour: operations and requests, ids filled in."""
    n = [0]

    def conv(ops):
        out = []
        for op in ops:
            n[0] += 1
            if op["op"] == "mount":
                out.append({"op": "mount", "path": op["path"], "ops": conv(op["ops"])})
            elif op["op"] == "route":
                out.append({"op": "route", "path": op["path"], "m": op["m"], "h": "h%d" % n[0]})
            else:
                out.append({"op": "mw", "path": op["path"], "h": "m%d" % n[0]})
        return out

    ops = conv(h["ops"])
    reqs = [(m, p) for p in h["requests"] for m in h["methods"]]
    return G.scenario(sid, ops, reqs, h["names"], rng, query=False)


def plain(run, gens):
    scs = {}
    uni = {}
    rng = run.rng
    for k, h in enumerate(gens):
        sid = "g%d" % k
        scs[sid] = from_history(h, sid, rng)
    for profile, q, t, nreq in PLAN[run.prop]:
        for k in range(run.scale(q, t)):
            g = G.Gen(rng, profile)
            ops = g.ops()
            sid = "%s%d" % (profile, k)
            scs[sid] = G.scenario(sid, ops, g.requests(nreq), g.names, rng)
    scs.update(families.scenarios(run.prop, run))
    if run.searcher:
        uni.update(families.unicode_wide(run, 2, 20))
        for k in range(run.scale(60, 800)):
            g = G.Gen(rng, "uni")
            ops = g.ops()
            ops = no_scope(ops)
            sid = "uni%d" % k
            uni[sid] = G.scenario(sid, ops, g.requests(20), g.names, rng, query=False)
    blocks = run_blocks(run, scs)
    if uni:
        for sc in uni.values():
            for st in sc["steps"]:
                st["target"] = G.path_of(st["target"])  # no server in front that takes the rest off
        out = run.execute(list(uni.values()), binary="searcher")
        blocks += [(sid, G.block(sc, out[sid])) for sid, sc in uni.items()]
        scs.update(uni)
    return scs, blocks


def no_scope(ops):
    out = []
    for op in ops:
        if op["op"] in ("scope", "mount"):
            op = {"op": "mount", "path": ("/" + op["path"]) if op["op"] == "scope" else op["path"], "ops": no_scope(op["ops"])}
        out.append(op)
    return out


def run_blocks(run, scs):
    out = run.execute(list(scs.values()))
    return [(sid, G.block(sc, out[sid])) for sid, sc in scs.items()]


def twins(run, gens):
    """Groups of applications that have to answer alike."""
    rng = run.rng
    groups = []  # (A scenario, make twin(s))
    prop = run.prop
    profs = {"R05": [("order", 60, 900), ("fan", 50, 600), ("mixed", 30, 300), ("wild", 20, 200), ("big", 2, 20), ("huge", 1, 4), ("long", 10, 100)],
             "R06": [("bad", 140, 1800), ("mixed", 30, 300), ("mount", 30, 300), ("long", 10, 100), ("big", 3, 30)],
             "R08": [("mount", 140, 1500), ("param", 20, 200), ("mw", 20, 200), ("deep", 10, 100), ("fan", 15, 150)]}[prop]
    nreq = 16
    firsts = {}
    for k, h in enumerate(gens):
        sid = "g%d" % k
        firsts[sid] = from_history(h, sid, rng)
    for profile, q, t in profs:
        for k in range(run.scale(q, t)):
            g = G.Gen(rng, profile)
            if prop == "R05":
                g.p["mount"] = 0.0
            if prop == "R08":
                g.p["bad"] = min(g.p["bad"], 0.05)
                g.p["mount"] = max(g.p["mount"], 0.3)
            ops = g.ops()
            sid = "%s%d" % (profile, k)
            firsts[sid] = G.scenario(sid, ops, g.requests(100 if profile in ("big", "huge") else nreq), g.names, rng, query=False)
    firsts.update(families.scenarios(prop, run))
    if prop == "R05":
        # only what is accepted in the first order; mounting is not free of order
        for s in firsts.values():
            s["ops"] = G.flatten(s["ops"])
        dry = run.execute([dict(s, steps=[]) for s in firsts.values()])
        for sid, s in firsts.items():
            s["ops"] = G.drop_refused(s["ops"], dry[sid]["outcomes"])
    outA = run.execute(list(firsts.values()))
    second = {}
    for sid, s in firsts.items():
        o = outA[sid]["outcomes"]
        if prop == "R05":
            for q in range(2):
                ops = copy.deepcopy(s["ops"])
                rng.shuffle(ops)
                if q == 0:
                    ops = list(reversed(s["ops"]))
                t = dict(s, id=sid + "/%d" % q, ops=ops)
                second.setdefault(sid, []).append(t)
        else:
            ops = G.drop_refused(s["ops"], o)
            if prop == "R08":
                ops = G.flatten(ops)
            second[sid] = [dict(s, id=sid + "/0", ops=ops)]
    outB = run.execute([t for ts in second.values() for t in ts])
    blocks = []
    scs = dict(firsts)
    for sid, s in firsts.items():
        b = G.block(s, outA[sid], "A")
        for t in second[sid]:
            b = b + G.block(t, outB[t["id"]], "B")
            scs[t["id"]] = t
        blocks.append((sid, b))
    return scs, blocks
