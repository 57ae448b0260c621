#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks (development helper)."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
TECH = "bounded symbolic execution of the package's Python code with an SMT solver (z3): {}"
CLAIMS = json.load(open(os.path.join(ROOT, "claims.json")))
ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in ids:
    if p in CLAIMS["checks"]:
        c = CLAIMS["checks"][p]
        checks.append(
            {
                "property": p,
                "quick_cmd": f"python3-vt -B run_check.py {p} --tier quick",
                "thorough_cmd": f"python3-vt -B run_check.py {p} --tier thorough",
                "technique": TECH.format(c["technique"]),
                "level": "model_checking",
                "level_note": c["note"],
                "evidence_file": f"evidence/{p}.json",
            }
        )
na = [{"property": p, "reason": CLAIMS["not_applicable"].get(p, "check not built yet")} for p in ids if p not in CLAIMS["checks"]]
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na, "notes": CLAIMS["notes"]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
