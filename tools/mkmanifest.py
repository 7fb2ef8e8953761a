#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
TECH = {"C31": "contract-based deductive verification of the code the generator in the tree makes from a fixed set of service descriptions (bounded in the descriptions)"}
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {"guard": "verif", "enable": "no hooks are needed: contracts are kept in /verif/contracts and bound to the functions of /repo by name", "source_commits": []},
    "checks": [],
    "not_applicable": [],
    "notes": "See DESIGN.md. Every check loads /repo's current source, generates verification conditions from it and the contracts, and discharges them with SMT solvers.",
}
for p in props:
    n = NOTES["claimed"].get(p["id"])
    if n is None:
        m["not_applicable"].append({"property": p["id"], "reason": NOTES["na"].get(p["id"], "no contract within reach decides it yet (see DESIGN.md)")})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "bin/gcv check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bin/gcv check " + p["id"],
        "technique": TECH.get(p["id"], "contract-based deductive verification of the real Go code (gcv: Go SSA to SMT obligations, z3/cvc5)"),
        "level": "translation_validation" if p["id"] in TECH else "proof",
        "level_note": n,
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
