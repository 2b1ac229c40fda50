#!/usr/bin/env python3
"""PLANTED.md: which check reports each planted change, from the output of plant.py (files given, later ones win)."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")
path = os.path.join(ROOT, "PLANTED.md")
res = {}
if os.path.exists(path):
    for x in open(path):
        c = [y.strip() for y in x.strip().strip("|").split("|")]
        if len(c) == 4 and c[0] in os.listdir(S):
            res[c[0]] = c[2]
for f in sys.argv[1:]:
    for x in open(f):
        w = x.split()
        if len(w) > 2 and w[1][:1] == "C" and w[2] in ("CAUGHT", "missed"):
            m = re.search(r"run (\d+) of (\d+)", x)
            res[w[0]] = f"{w[1]} run {m.group(1)} of {m.group(2)}" if w[2] == "CAUGHT" and m else "missed"
with open(path, "w") as out:
    out.write("# Planted changes\n\nEach is under `seeded/`; the third column is the first planned run of the quick check that reports it.\n\n| change | property | reported by | needs |\n|---|---|---|---|\n")
    for i in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, i, "meta.json")))
        out.write(f"| {i} | {m['property']} | {res.get(i, '?')} | {m['needs'].replace('|', '/')} |\n")
print(len(os.listdir(S)), "changes,", sum(res.get(i, "?") == "?" for i in os.listdir(S)), "unknown", [i for i in os.listdir(S) if res.get(i) in (None, "missed")])
