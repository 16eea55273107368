#!/usr/bin/env python3
"""design.py : refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + "/tools/caught.json"))
rows = ["| planted bug | property | what it breaks | quick check |", "|---|---|---|---|"]
for p in sorted(glob.glob(root + "/seeded/*/meta.json") + glob.glob(root + "/uncounted/*/meta.json"), key=lambda p: p.split("/")[-2]):
    i = os.path.basename(os.path.dirname(p)); m = json.load(open(p))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks'].replace('|', chr(92)+'|')} | {caught.get(i, 'not run')} |")
s = open(root + "/DESIGN.md").read()
a = s.index("<!-- planted -->"); b = s.index("<!-- /planted -->")
open(root + "/DESIGN.md", "w").write(s[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n" + s[b:])
