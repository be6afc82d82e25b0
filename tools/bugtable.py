#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the results tools/catch.sh appends to tools/caught.tsv."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
res = {}
if os.path.exists("tools/caught.tsv"):
    for line in open("tools/caught.tsv"):
        i, rc, key = (line.rstrip("\n").split("\t") + ["", ""])[:3]
        res[i] = (rc, key)
rows = ["| bug | what it breaks | needs | quick check of its property |", "|---|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    i = m.split("/")[1]
    d = json.load(open(m))
    rc, key = res.get(i, ("?", ""))
    rows.append(f"| {i} | {d['what_it_breaks']} | {d['needs']} | {'caught: ' + key if rc == '1' else 'MISSED' if rc == '0' else 'rc ' + rc} |")
t = open("DESIGN.md").read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
pre, rest = t.split(a, 1)
post = rest.split(b, 1)[1]
open("DESIGN.md", "w").write(pre + a + "\n".join(rows) + "\n" + b + post)
print(sum(v[0] == "1" for v in res.values()), "caught of", len(rows) - 2)
