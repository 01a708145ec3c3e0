#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NA  # noqa

PY = "/opt/venv/bin/python"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w}
                                       for n, w in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    if not os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "%s -m pyvc.run %s" % (PY, p["id"]),
        "thorough_cmd": "%s -m pyvc.run %s --thorough" % (PY, p["id"]),
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "contracts on the real functions, verification "
        "conditions from their current source discharged by z3/cvc5 (pyvc)",
        "level": p.get("level", "proof"), "level_note": p["note"]})
m = {"version": 1,
     "setup_cmd": PY + " -m pyvc.selftest",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Commits there are fix: commits only, "
     "listed in KNOWN_FINDINGS.jsonl. pyvc is the verifier: see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "n/a")
