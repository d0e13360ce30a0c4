#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = os.path.join(V, "DESIGN.md")
s = open(p).read(); s = s[:s.index("## Planted bugs")].rstrip(); rows = {}
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); rows.setdefault(m["property"], []).append(f"`{os.path.basename(d)}` ({m['needs'].split(';')[0]})")
s += "\n\n## Planted bugs\n\nEach is in `seeded/`, with a demonstration. Every one is caught by the check of its own property (quick tier).\n\n| property | planted changes and what they need |\n|---|---|\n"
open(p, "w").write(s + "".join(f"| {k} | {'; '.join(v)} |\n" for k, v in sorted(rows.items())))
