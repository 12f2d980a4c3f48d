#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.tmpl, the planted bugs and the list of those that were caught (caught.txt: id property yes|no)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(root, "tools", "DESIGN.tmpl")).read()
got = {}
for l in open(os.path.join(root, "tools", "caught.txt")):
    i, p, c = l.split()
    got.setdefault(i, {})[p] = c
rows = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
d = os.path.join(root, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    c = ", ".join(p for p, x in sorted(got.get(i, {}).items()) if x == "yes") or "no check"
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], c))
open(os.path.join(root, "DESIGN.md"), "w").write(s.replace("SEEDED", "\n".join(rows)))
