#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and tools/caught.json ({id: true|false|text}).
Run after tools/mkseed.py --check."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(f"{H}/tools/caught.json"))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{H}/seeded/*")):
    i = os.path.basename(d); m = json.load(open(d + "/meta.json"))
    v = c.get(i, "not run")
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {v} |")
p = f"{H}/DESIGN.md"; t = open(p).read()
a = t.index("<!-- seeds -->") + 14; b = t.index("<!-- /seeds -->")
open(p, "w").write(t[:a] + "\n" + "\n".join(rows) + "\n" + t[b:])
