#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md out of seeded/*/meta.json and tools/caught.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
caught = json.load(open("tools/caught.json"))
rows = ["<!-- bugs -->", "| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    i = f.split("/")[1]
    rows.append(f"| {i} | {d['what_it_breaks']} | {d['needs']} | {caught.get(i, d['property'])} |")
rows.append("<!-- /bugs -->")
s = open("DESIGN.md").read()
new = "\n".join(rows)
if "@TABLE@" in s:
    s = s.replace("@TABLE@", new)
else:
    s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: new, s, flags=re.S)
open("DESIGN.md", "w").write(s)
