#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

ROUTING = ("TLA+ model of the route table refined by a model of the radix trie (TLC, exhaustive within bounds); "
           "histories enumerated by TLC and random ones run on the real server, traces validated by TLC against the specification")
NOTES = {}
for p in ["R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08"]:
    NOTES[p] = (ROUTING, "Exhaustive on the specification for small tables; the code is bound to it by replayed and "
                         "validated traces of real applications, sampled for larger tables.")

DATA = ("TLA+ specification of form and JSON decoding (and of body delivery in chunks), explored exhaustively by TLC within bounds; "
        "cases enumerated by TLC and random ones run on the real code, recorded results validated by TLC against the specification")
for p in ["B01", "B03", "B04"]:
    NOTES[p] = (DATA, "Exhaustive on the specification for small shapes and texts; the code is bound to it by replayed and "
                      "validated runs over enumerated and random inputs.")

SERVER = ("TLA+ specification of the server (middleware chain, request contexts, connections) as a concurrent transition system, "
          "checked by TLC; its histories and random applications run on the real server, recorded traces validated by TLC")
for p in ["P01", "P03", "P05", "P06"]:
    NOTES[p] = (SERVER, "Exhaustive on the specification for a few concurrent requests; the code is bound to it by replaying the "
                        "specification's histories and validating traces of random applications.")
CONTEXT = ("TLA+ specification of a request's context and of serving it, all short programs explored by TLC against independently stated "
           "invariants; those programs and random applications run on the real server, recorded traces validated by TLC")
for p in ["P02", "P04", "P07", "B02"]:
    NOTES[p] = (CONTEXT, "Exhaustive on the specification for short programs; the code is bound to it by replaying these programs and "
                         "validating traces of random applications.")

RESPONSE = ("TLA+ specification of response building as a transition system, all short programs of building steps explored by TLC; those "
            "programs and random longer ones run on the real code (in process and through a server), results validated by TLC")
for p in ["S01", "S02"]:
    NOTES[p] = (RESPONSE, "Exhaustive for programs of up to three steps over the whole API and four over a part of it; random beyond.")
STATIC = ("TLA+ specification of a file tree, path walking and static routes, checked by TLC; its histories of file changes with all short "
          "request paths, and random trees with attack paths, run on the real server, traces validated by TLC")
for p in ["F01", "F02"]:
    NOTES[p] = (STATIC, "Exhaustive on the specification for a small tree and all paths of up to three segments; random trees, paths and "
                        "disguises beyond.")


def main():
    claimed = NOTES
    ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks = []
    for p in ids:
        if p not in claimed:
            continue
        tech, note = claimed[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 checks/run.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": tech,
            "level": "model_checking",
            "level_note": note,
        })
    man = {
        "version": 1,
        "setup_cmd": "bash checks/setup.sh",
        "checks": checks,
        "not_applicable": [{"property": p, "reason": "its check is still being built"} for p in ids if p not in claimed],
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
