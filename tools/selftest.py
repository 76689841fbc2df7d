#!/usr/bin/env python3
"""Tests the condition generator on govc/selftest: every function whose name
begins with Bad has a wrong body and must be refuted, every other must be
proved."""
import json, os, subprocess, sys, tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
govc = sys.argv[1] if len(sys.argv) > 1 else os.path.join(here, ".bin", "govc")
root = os.path.join(here, "govc", "selftest")
with tempfile.TemporaryDirectory() as d:
    out = os.path.join(d, "out.json")
    subprocess.run([govc, "-repo", root, "-specs", os.path.join(root, "specs"), "-v", "0", "-out", out],
                   stdout=subprocess.DEVNULL, timeout=300)
    units = json.load(open(out))["units"]
wrong = []
for u in units:
    bad = u["Name"].split(".")[-1].startswith("Bad")
    if u["Status"] != ("failed" if bad else "proved"):
        wrong.append("%s: %s" % (u["Name"], u["Status"]))
n = sum(u["Name"].split(".")[-1].startswith("Bad") for u in units)
print("self test: %d wrong bodies refuted, %d right ones proved, %d mistakes" % (n, len(units) - n, len(wrong)))
for w in wrong:
    print("  " + w)
sys.exit(bool(wrong) or not n)
