#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from the folders under seeded/ (for the
author; no check runs this)."""
import collections, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    by[m["property"]].append(re.sub(r"^c\d+-", "", d))
rows = ["| caught by | changes |", "|---|---|"]
rows += [f"| {p} | {', '.join(by[p])} |" for p in sorted(by)]
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| caught by \| changes \|\n(?:\|.*\n)+", "\n".join(rows) + "\n", s)
open(p, "w").write(s)
