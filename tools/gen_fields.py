#!/usr/bin/env python3
"""Writes harness/fields.inc: the accessors of every field and attribute that
KmlSchema.tla lists (run by hand when the vocabulary grows)."""
import sys; sys.path.insert(0, "/verif/lib")
import fw
def cls(t):
    if t in ("kml",): return "Kml"
    if t == "IconStyleIcon": return "IconStyleIcon"
    if ":" in t: p, n = t.split(":"); return p.capitalize() + n[0].upper() + n[1:]
    return t[0].upper() + t[1:]
def acc(f):
    f = f.lower()
    if f.startswith("gx:"): return "gx_" + f[3:]
    return f.split(":")[-1]
out = []
for t in fw.schema()["types"]:
    n = t["n"]
    if n in ("Metadata",): continue
    for k, v in t["attrs"]: out.append('F(%s, "%s", "@%s", %s)' % (cls(n), n, k, acc(k)))
    for sl in t["slots"]:
        if sl["k"] == "f" and sl["v"] not in ("coords", "states"): out.append('F(%s, "%s", "%s", %s)' % (cls(n), n, sl["n"], acc(sl["n"])))
    if n in ("Snippet", "linkSnippet", "SimpleData"): out.append('F(%s, "%s", "#", text)' % (cls(n), n))
open("/verif/harness/fields.inc", "w").write("// generated by tools/gen_fields.py\n" + "\n".join(out) + "\n")
