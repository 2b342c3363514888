#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded-results.json.

Only a documentation helper: no check reads either."""
import json, glob, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
res = {}
f = os.path.join(root, "tools", "seeded-results.json")
if os.path.exists(f):
    res = json.load(open(f))
rows = ["| planted bug | property | what it breaks | caught by (quick tier) |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); id = os.path.basename(os.path.dirname(m))
    rows.append(f"| {id} | {d['property']} | {d['what_it_breaks'].replace('|','/')} | {res.get(id,'?')} |")
p = os.path.join(root, "DESIGN.md"); s = open(p).read()
b, e = "<!-- planted -->", "<!-- /planted -->"
s = s[:s.index(b) + len(b)] + "\n" + "\n".join(rows) + "\n" + s[s.index(e):]
open(p, "w").write(s)
