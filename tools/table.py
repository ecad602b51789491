#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/ and tools/catches.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
rows = ["| bug | property | needs | reported by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), ", ".join(c.get(i, [])) or "-"))
p = V + "/DESIGN.md"
s = open(p).read()
a = "<!-- table -->\n"
head = s.split(a)[0] if a in s else s.replace("SEEDTABLE\n", "")
open(p, "w").write(head + a + "\n".join(rows) + "\n")
