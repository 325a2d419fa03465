#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (the checks do not read it)."""
import glob, json, os, re
rows = []
for d in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(d + "/meta.json")); rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
t = "<!-- SEEDS -->\n| id | caught by the check of | what breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /SEEDS -->"
s = open("/verif/DESIGN.md").read()
s = s.replace("SEEDTABLE\n", t + "\n") if "SEEDTABLE\n" in s else re.sub(r"<!-- SEEDS -->.*<!-- /SEEDS -->", lambda _: t, s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s)
