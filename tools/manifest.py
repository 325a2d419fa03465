#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
import props_impl
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "levels.json")))
checks = []; na = []
for p in ids:
    if p in props_impl.REG:
        n = notes.get(p, {})
        checks.append({"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": n.get("technique", "TLA+ specification checked with TLC; recorded executions of the real code validated against it by TLC"),
            "level": "model_checking", "level_note": n.get("note", "Explicit TLA+ model; TLC decides every recorded execution; bounded by the scenarios generated from the model.")})
    else: na.append({"property": p, "reason": notes.get(p, {}).get("reason", "check still being built")})
m = {"version": 1, "setup_cmd": "python3 lib/vb.py", "hooks": {"guard": "none", "enable": "no hooks: the public API exposes every observed state", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. fix: commits in /repo repair genuine defects found by these checks."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
