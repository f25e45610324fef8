#!/usr/bin/env python3
"""Writes DESIGN.md from its parts."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/techniques.py").read())
exec(open(V + "/tools/details.py").read())
out = open(V + "/tools/design_head.md").read()
for p in map(json.loads, open(V + "/properties.jsonl")):
    i = p["id"]
    t, level, note = T[i]
    d = D[i]
    out += "### %s - %s\n\n*Decided by* %s (level: %s).\n\n" % (i, p["title"], t, level)
    out += "*Workload and oracle.* %s\n\n*Bounds and trust.* %s %s\n\n" % (d[0], d[1], note)
    out += "*Beyond the tests.* %s\n\n" % d[2]
out += open(V + "/tools/design_tail.md").read()
s = V + "/tools/seeded.md"
if os.path.exists(s):
    out += open(s).read()
open(V + "/DESIGN.md", "w").write(out)
