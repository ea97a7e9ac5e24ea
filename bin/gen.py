#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from meta import P, NA
with open(V + "/properties.jsonl", "w") as f:
    for k, p in sorted(P.items()):
        f.write(json.dumps({"id": k, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    for n in NA:
        f.write(json.dumps({"id": n["id"], "title": n["title"], "statement": n["statement"], "quantifier": {"over": n["over"].split(), "text": n["quant"]},
                            "why_tests_cant": n["why"], "anchors": {"files": n["files"].split(), "mechanism": [{"name": "mechanism", "where": n["files"].split()[0]}]}}) + "\n")
tech = "contract-based deductive verification: contracts on the real code, obligations generated from its LLVM IR by symbolic execution and discharged by ring normalisation and SMT"
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA],
     "notes": "No hooks in /repo. Contracts: contracts/*.cpp; engine: engine/; see DESIGN.md."}
for k, p in sorted(P.items()):
    m["checks"].append({"property": k, "quick_cmd": "python3 bin/check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + k,
                        "technique": tech, "level": "proof",
                        "level_note": "Every obligation of the contracts is discharged for all real-valued inputs at the stated instantiation (" + p["sizes"] + "). "
                        "Doubles are treated as reals; " + "; ".join(p["assumptions"] + ["trusted: clang, the ctv engine, z3/cvc5"]) + "."})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
