#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
root = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
TECH = ("TLA+ specification of the format, reader, writer and API, explored by TLC; TLC checks the specification on every explored "
        "value and prints the expected result of each call, and the calls are replayed into the real code")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH + ("; traces recorded from the real code are judged by TLC against the same specification" if c.get("record") else "") + ".",
            "level": c.get("level", "model_checking"),
            "level_note": c.get("note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
m["notes"] = ("No hooks in /repo: everything is bound through the public API. Repairs of genuine defects are the fix: commits in /repo, "
              "listed in known-findings.txt.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
