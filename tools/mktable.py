#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | caught by | needs | breaks |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{b}/meta.json"))
    one = lambda s: " ".join(s.split()).replace("|", "/")
    rows.append(f"| {b} | {m['property']} | {m.get('caught_by', m['property'])} | {one(m['needs'])} | {one(m['what_it_breaks'])} |")
p = here + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- table -->.*?(?=\nMisses that led)", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n", t, flags=re.S)
open(p, "w").write(t)
