#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded"); f = os.path.join(V, "DESIGN.md")
s = open(f).read().split("\n## Planted bugs")[0].rstrip("\n")
rows = []
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    rows.append((m["property"], i, m["what_it_breaks"].replace("|", "/").replace("\n", " ")))
rows.sort()
s += "\n\n## Planted bugs\nEach is caught (quick tier) by the check of the property it was written for (`tools/trybug.py` reruns one).\n\n| caught by | id | what it breaks |\n|---|---|---|\n"
s += "".join("| %s | %s | %s |\n" % (a, b, c[:160]) for a, b, c in rows)
open(f, "w").write(s)
