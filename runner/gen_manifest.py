#!/usr/bin/env python3
"""Writes MANIFEST.json from runner/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "runner"))
import meta
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in meta.NA.items()],
     "notes": "No hooks in /repo. known-findings.json lists repaired defects and recorded findings. DESIGN.md describes the machinery."}
for k, p in sorted(meta.PROPS.items()):
    m["checks"].append({"property": k, "quick_cmd": "./run.sh %s quick" % k, "thorough_cmd": "./run.sh %s thorough" % k, "evidence_file": "evidence/%s.json" % k,
        "technique": p.get("technique", "symbolic execution of the real code + z3 equivalence checking"), "level": "other",
        "level_note": "Solver verdict over all values within these bounds: " + p["bounds"] + " Outside: " + p["outside"] + ". Trusts: " + "; ".join(p["assumptions"]) + "."})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    if i not in meta.PROPS and i not in meta.NA:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
