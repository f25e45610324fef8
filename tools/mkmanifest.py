#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/tools/techniques.py").read())
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i.lower()) and i in T:
        t, l, n = T[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py %s" % i, evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: all observation happens at process, socket, file and system-call boundaries (including a preloaded shim on a dynamically linked build), so there is no guard define. /repo's only commits are unguarded fix: commits, listed in known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
