#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re

root = pathlib.Path(__file__).resolve().parent.parent
rows = {}
for f in sorted(root.glob("seeded/*/meta.json")):
    m = json.loads(f.read_text())
    rows.setdefault(m["property"], []).append(f"`{f.parent.name}` ({m['needs']})")
table = "| caught by the check of | planted bugs (what each needs) |\n|---|---|\n"
table += "".join(f"| {c} | {'; '.join(r)} |\n" for c, r in sorted(rows.items()))
p = root / "DESIGN.md"
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + table + m[2], p.read_text(), flags=re.S)
p.write_text(s)
print(sum(map(len, rows.values())), "planted bugs")
