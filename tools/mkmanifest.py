#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
def chk(pid, script, note, technique=None, level="model_checking"):
    C[pid] = dict(property=pid, quick_cmd=f"/usr/bin/python3 checks/{script}",
                  thorough_cmd=f"/usr/bin/python3 checks/{script} --thorough",
                  technique=technique or "TLA+ specification checked with TLC; its behaviours are replayed into the real code and every response compared",
                  level=level, level_note=note)
exec(open(os.path.join(V, "tools", "checks.list")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = globals().get("NA", {})
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in C]
m = dict(version=1, setup_cmd="/usr/bin/python3 tools/setup.py",
         checks=[C[p["id"]] for p in props if p["id"] in C], not_applicable=na,
         notes="No hooks: all checks use public interfaces only. known_findings.json lists findings and fixes.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(C), "checks;", len(na), "not claimed")
