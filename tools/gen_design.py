#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and caught.json (the checks which
reported them when tools/plant.py verified them)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | caught by | what it breaks, and what it needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    f = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "\\|")[:160]
    rows.append(f"| {d} | {m['property']} | {m.get('caught_by', m['property'])} | {f(m['what_it_breaks'])} ({f(m['needs'])}) |")
s = open(root + "/DESIGN.md").read()
a, b = "<!-- plants -->", "<!-- /plants -->"
i, j = s.index(a) + len(a), s.index(b)
open(root + "/DESIGN.md", "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
