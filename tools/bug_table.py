#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
missed = {}
p = os.path.join(root, "seeded", "missed.json")
if os.path.exists(p):
    missed = json.load(open(p))
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = os.path.join(root, "seeded", i, "meta.json")
    if os.path.exists(m):
        m = json.load(open(m))
        by = missed.get(i) or m["property"] + " quick"
        rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], by))
f = os.path.join(root, "DESIGN.md")
s = open(f).read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
if a not in s:
    s = s.replace("@@BUGS@@", a + b)
i, j = s.index(a) + len(a), s.index(b)
open(f, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
