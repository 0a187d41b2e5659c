#!/usr/bin/env python3
"""DESIGN.md = tools/DESIGN.tmpl.md with the table of planted bugs filled in."""
import json, os, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"], m.get("caught", m["property"] + " quick")))
open("DESIGN.md", "w").write(open("tools/DESIGN.tmpl.md").read().replace("@TABLE@", "\n".join(rows)))
