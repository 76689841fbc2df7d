#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json
and tools/bugs_caught.json (bug id -> how the check reported it)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(here + "/tools/bugs_caught.json"))
rows = ["| bug | property | what it breaks | reported by |", "|---|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (b, d["property"], d["what_it_breaks"].replace("|", "/"), caught.get(b, "not run")))
p = here + "/DESIGN.md"
s = open(p).read()
i = s.index("## Planted bugs")
j = s.find("\n| bug |", i)
s = (s if j < 0 else s[:j]).rstrip("\n") + "\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
