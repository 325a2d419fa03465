#!/usr/bin/env python3
"""Writes known_findings.json from the fix: commits of /repo and the list of
unrepaired findings below."""
import json, subprocess
P = """79461cc C06
13ed615 C02
dc9404c C02
97c5b70 C01
11ec20f C03
cc06545 C03
388d8c9 C01
0e093ed C06
9c56b9e C02
ad96d4c C04
b49809d C04
6bb3a28 C04
80b942c C05
d64716e C05
5895f29 C03
cd1282b C07
c1371eb C08
603b823 C03
25b5bfb C09
d79deb2 C09
772bb7f C09
3d4e50a C10
5e2bd7a C10
12a59fe C10
5145ad5 C26
4be6e1c C26
67a1ef0 C12
aea56d1 C26
f6ab102 C13
78e07c6 C13
756d7f0 C13
afd92df C13
6f43372 C14
303a514 C14
bc35a75 C18
f49a3b5 C18
101b4e9 C18
8577a03 C15
fa3911c C15
0ff8ac6 C16
199cc7f C16
c8d2062 C16
4a53bd4 C17
042d903 C17
ea17926 C17
522577d C17
2c581fa C17
8d1561f C16
91c7958 C17
894bf7f C19
6d5292b C19
a56103d C20
36c6ad0 C25
7839dc1 C25
fb4212c C25
41ea9af C21
6a06fad C22
32c9c2f C22
616240a C31
5705b99 C32
8b5614f C29
ee65e22 C28
2cb7190 C30
d9ee8c4 C30
4393d00 C33
10e9b6b C33
458aabc C33
005d7e2 C33
e36e59c C13
9aed7a1 C35
74136f6 C35
c38de33 C35
7a62abd C35
5498b84 C35
a3b1b0c C35
6241c71 C36
c81f4e7 C36
dc949b3 C29
cfa6b9b C33
95ca44a C28
1e915b6 C12
29e28f6 C38
f012497 C39
e04906d C28
01489b5 C16
51d2562 C40"""
prop = dict(l.split() for l in P.splitlines())
KNOWN = [
 {"property": "C24", "status": "known", "scenario": "orphan-getparent",
  "what": "an element kept after its parent was deleted answers GetParent() with the deleted parent (driver orphan: Placemark with a Point, Placemark dropped, Point->GetParent())"},
]
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
missing = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    h = h[:7]
    if h not in prop: missing.append(l); continue
    out.append({"property": prop[h], "status": "fixed", "commit": h, "what": s[5:], "text": "fixed: property=%s %s %s" % (prop[h], h, "violated before: " + s[5:])})
if missing: raise SystemExit("no property for: %s" % missing)
json.dump(out + KNOWN, open("/verif/known_findings.json", "w"), indent=1)
