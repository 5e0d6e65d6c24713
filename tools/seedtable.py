#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
The "after" column is kept; seedtable.py ID "text" sets it for one."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
ls = open(p).read().split("\n")
i = ls.index("| bug | property | needs | after |")
j = i + 2
after = {}
while ls[j].startswith("|"):
    c = [x.strip() for x in ls[j].strip("|").split("|")]
    after[c[0]] = c[-1]
    j += 1
if len(sys.argv) == 3: after[sys.argv[1]] = sys.argv[2]
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), after.get(d, "")))
ls[i+2:j] = rows
open(p, "w").write("\n".join(ls))
print(len(rows))
