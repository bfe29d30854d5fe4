#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "<!-- planted changes: written by tools/seedtable.py -->\n"
rows = []
for d in os.listdir(here + "/seeded"):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
rows.sort()
clean = lambda s: s.replace("|", "\\|").replace("\n", " ")
text = "| change | caught by | needs | breaks |\n|---|---|---|---|\n"
text += "".join(f"| {d} | {p} | {clean(n)} | {clean(w)} |\n" for p, d, n, w in rows)
s = open(here + "/DESIGN.md").read()
s = s[:s.index(mark)] + mark + f"\n{len(rows)} changes.\n\n" + text
open(here + "/DESIGN.md", "w").write(s)
