#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and seeded_results.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(ROOT, "seeded_results.json")))
rows = ["## Planted bugs", "", "| bug | property | needs | checks that catch it |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], ", ".join(res.get(b, {}).get("caught", [])) or "none"))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
i = s.find("## Planted bugs")
s = s[:i] + "\n".join(rows) + "\n"
open(p, "w").write(s)
