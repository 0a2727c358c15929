#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2])
t = "\n".join("| %s | %s |" % (p, ", ".join(d[p])) for p in sorted(d))
s = open(H + "/DESIGN.md").read()
h = "|----------|-------------------------------|\n"
i = s.index(h) + len(h)
open(H + "/DESIGN.md", "w").write(s[:i] + t + "\n")
