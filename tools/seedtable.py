#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", name, "meta.json")))
    rows.setdefault(meta["property"], []).append(name)
table = "| Property | Planted bugs |\n|---|---|\n" + "".join(f"| {k} | {', '.join(v)} |\n" for k, v in sorted(rows.items()))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"\| Property \| Planted bugs \|\n(\|.*\n)+", lambda m: table, s)
open(p, "w").write(s)
