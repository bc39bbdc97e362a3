#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded*/*/meta.json."""
import glob, json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(f"{top}/seeded/*/meta.json")) + sorted(glob.glob(f"{top}/seeded-fortran/*/meta.json")):
    j = json.load(open(m))
    n = os.path.relpath(os.path.dirname(m), top).replace("seeded/", "")
    by = " and ".join([j["property"]] + j.get("also", []))
    rows.append(f"* `{n}`, caught by {by}: {j['what_it_breaks'].rstrip('.')}; needs {j['needs'].rstrip('.')}.")
s = open(f"{top}/DESIGN.md").read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- end -->)", lambda q: q.group(1) + "\n".join(rows) + "\n" + q.group(2), s, flags=re.S)
open(f"{top}/DESIGN.md", "w").write(s)
print(len(rows))
