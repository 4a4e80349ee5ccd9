#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.in.md and seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['needs']} |")
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read().replace("@SEEDED@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
