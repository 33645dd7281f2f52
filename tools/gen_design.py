#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import json, glob, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = dict(l.split(None, 1) for l in open(V + "/tools/caught.txt").read().splitlines() if l.strip())
rows = ["| bug | property | breaks | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"], caught.get(n, "?")))
p = V + "/DESIGN.md"; s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@TABLE@", t) if "@TABLE@" in s else re.sub(r"<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
