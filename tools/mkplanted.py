#!/usr/bin/env python3
"""Rewrites the "Planted bugs" section of DESIGN.md from seeded/*/meta.json and catches.txt
(lines: bug, property, rc=.., number of VIOLATION lines, seconds)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(f"{root}/tools/catches.txt"):
    f = l.split()
    if len(f) >= 4 and f[2].startswith("rc="):
        caught.setdefault(f[0], {})[f[1]] = f[2] == "rc=1" and int(f[3]) > 0
rows = []
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    c = caught.get(d, {})
    who = ", ".join(sorted(p for p, ok in c.items() if ok)) or ("missed" if c else "not run")
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {who} |")
t = open(f"{root}/DESIGN.md").read()
head = t[:t.index("## Planted bugs")]
head += f"""## Planted bugs

`seeded/` holds {len(rows)} of them; each compiles, passes the stable tests, and fails its demonstration.
The last column: the checks (quick) that were run against it and reported it. Every bug was run
against the check of its own property only, unless more are named.

| bug | property | needs | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(f"{root}/DESIGN.md", "w").write(head)
