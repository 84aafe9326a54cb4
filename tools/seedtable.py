#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from the output of `seedtest.py check` (development tool; no check uses it).

  seedtable.py LOG...       a later line for the same bug and property replaces an earlier one"""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) ([A-Z]\d\d) (caught|missed|ERROR)", l)
        if m:
            res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
rows = ["| bug | needs | own check | others that catch it |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    r = res.get(d, {})
    own = m["property"]
    oth = sorted(p for p in r if p != own and r[p] == "caught")
    rows.append("| %s | %s | %s %s | %s |" % (d, m["needs"].replace("|", "/"), own, r.get(own, "not run"), ", ".join(oth)))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
print(sum(v == "caught" for d, r in res.items() for p, v in r.items()), "caught")
