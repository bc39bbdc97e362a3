#!/usr/bin/env python3
"""Refresh the 'fixed' list of known_findings.json from the fix: commits."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(V, "tools", "fixmap.json")))
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
kf = os.path.join(V, "known_findings.json")
d = json.load(open(kf))
d["fixed"] = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        pid = MAP.get(s[4:].strip())
        if not pid:
            print("UNMAPPED", s)
        d["fixed"].append(f"fixed: property={pid} {h} {s[4:].strip()}")
json.dump(d, open(kf, "w"), indent=1)
