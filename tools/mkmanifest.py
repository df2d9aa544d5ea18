#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = NOTES.get(p)
    if not n:
        na.append({"property": p, "reason": "the specification and conformance check for it are not built yet"})
        continue
    if n.get("not_applicable"):
        na.append({"property": p, "reason": n["not_applicable"]})
        continue
    checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked with TLC; the Go harness in harness/ is overlaid on /repo at build time (no hooks in /repo). known-findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
