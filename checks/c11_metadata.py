#!/usr/bin/env python3
"""C11: metadata files (Meta.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

CFG = """INIT Init
NEXT Next
INVARIANT ReadBack
INVARIANT Verdict
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
NAMES = ("mods.meta", "physics_a.meta", "phys.v2.meta", "x.meta", "hostmod.meta")
HEAD = {"table": ("[ccpp-table-properties]", "[ ccpp-table-properties ]", "[CCPP-table-Properties]", "  [ccpp-table-properties]"),
        "sect": ("[ccpp-arg-table]", "[ ccpp-arg-table ]", "[ccpp-ARG-table]", " [ccpp-arg-table]  ")}


def render(lines):
    """The lines as text, and the number of the first physical line of each (and of the end)."""
    out, at = [], []
    for l in lines:
        at.append(len(out) + 1)
        f, k = l["f"], l["k"]
        if k in HEAD:
            out.append(HEAD[k][f % 4])
        elif k == "var":
            out.append(("[ %s ]", "[%s]", "[ %s]", "[  %s  ]   ")[f % 4] % l["n"]["x"])
        elif k in ("note", "junk"):
            out.append(l["n"]["x"])
        else:
            ps = []
            for n, p in enumerate(l["p"]):
                if p["q"] == ["bar"]:
                    ps.append("")
                    continue
                key = (str.upper, str.capitalize)[f % 9](p["key"]) if f % 9 < 2 else p["key"]
                eq = (" = ", "=", "  =  ", " =", " \\\n  = ", " = \\\n    ")[(f // 9) % 18 % 6 if (f // 9) % 18 < 10 and n == 0 else (f // 9) % 4]
                ps.append(key + eq + p["x"])
            s = ("  ", "", "    ", " ")[(f // 200) % 4] + (" | ", "|", "| ")[(f // 800) % 3].join(ps) + ("", "  ")[(f // 2400) % 2]
            out += s.split("\n")
    at.append(len(out) + 1)
    return "\n".join(out) + ("\n" if len(out) % 5 else ""), at


def expected(t, path):
    base = os.path.basename(path)[:-5]
    for x in t["out"]:
        d = os.path.dirname(path)
        x["d"] = sorted(os.path.abspath(os.path.join(d, x["p"], y)) for y in x["d"])
        del x["p"]
        for s in x["s"]:
            if s["m"] == "(file)":
                s["m"] = base
    return t["out"]


def check(c):
    n = 20000 if c.thorough else 2400
    rs = pmap(lambda k: c.tlc("Meta", CFG, simulate=n // NCPU, depth=600, seed=c.seed * 1013 + k), list(range(NCPU)))
    keys = "standard_name long_name units dimensions type kind diagnostic_name diagnostic_name_fixed default_value persistence active intent molar_mass " \
           "state_variable protected allocatable polymorphic top_at_one optional target advected constituent".split()
    BATCH = 25

    def work(k):
        fs = ForkSrv(c)
        d = os.path.join(c.tmp, f"p{k}")
        os.makedirs(d)
        lines = rs[k].lines
        try:
            for b in range(0, len(lines), BATCH):
                todo = []
                for i, t in enumerate(lines[b:b + BATCH], b):
                    os.makedirs(f"{d}/{i}")
                    path = f"{d}/{i}/{NAMES[i % len(NAMES)]}"
                    txt, at = render(t["lines"])
                    open(path, "w").write(txt)
                    todo.append((i, t, path, txt, at))
                r = fs.op("read", {"files": [x[2] for x in todo], "keys": keys}, ops="metaops.py")
                if r["rc"] != 0 or r["val"] is None:
                    c.violation(f"p{k}:{b}", f"reading stops with {r['out'][-600:]}", [x[3] for x in todo])
                    continue
                for (i, t, path, txt, at), (kind, msg, tabs, names) in zip(todo, r["val"]):
                    c.traces += 1
                    c.steps += len(t["lines"])
                    judge(c, f"p{k}:{i}", t, path, txt, at, kind, msg, tabs, names)
                    v = "unspecified" if t["any"] else "rejected" if kind else "accepted"
                    c.cov[v] = c.cov.get(v, 0) + 1
                    shutil.rmtree(os.path.dirname(path))
                if not c.samples:
                    c.samples.append({"text": txt[:600], "bad": t["bad"]})
        finally:
            fs.close()
    fork_map(c, work, list(range(NCPU)))


def judge(c, key, t, path, txt, at, kind, msg, tabs, names):
    doc = "\n--- " + os.path.basename(path) + "\n" + txt
    if kind:
        if kind not in ("CCPPError", "ParseSyntaxError", "ParseInternalError"):
            return c.violation(key + ":crash", f"reading stops with {kind}: {msg[:300]}" + doc, t)
        at_lines = [int(x) for x in re.findall(re.escape(path) + r":(\d+)", msg)]
        if not at_lines:
            return c.violation(key + ":where", f"the error does not name the file and the line: {msg[:300]}" + doc, t)
        if t["any"]:
            return
        if not t["bad"]:
            return c.violation(key + ":rejected", f"a well-formed file is rejected: {msg[:300]}" + doc, t)
        spans = [(at[max(a, 1) - 1], at[z - 1]) for a, z in t["bad"]]
        if not any(a <= x <= z for x in at_lines for a, z in spans):
            c.violation(key + ":line", f"the error is about {at_lines} ({msg[:300]}), what is wrong is in {spans}" + doc, t)
        return
    if t["any"]:
        return
    if t["bad"]:
        a, z = t["bad"][0]
        return c.violation(key + ":accepted", f"accepted, although the block in lines {at[max(a, 1) - 1]}-{at[z - 1]} is malformed" + doc, t)
    want = expected(t, path)
    for x in tabs:
        x["d"] = sorted(x["d"])
    if tabs != want:
        diff = [(p, a, b) for p, a, b in differences(want, tabs)][:3]
        return c.violation(key + ":content", "".join(f"\n{p}: declared {a}, read {b}" for p, a, b in diff) + doc, t)
    if all(x["t"] == "scheme" for x in want) and names != [x["n"] for x in want]:
        c.violation(key + ":names", f"the schemes of the file are {[x['n'] for x in want]}, find_scheme_names gives {names}" + doc, t)


def differences(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            yield from differences(a.get(k), b.get(k), f"{p}.{k}")
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            yield from differences(x, y, f"{p}[{i}]")
    elif a != b:
        yield p, a, b


if __name__ == "__main__":
    main(check, "C11", assumptions=["a property is given once in a block (dependencies may be repeated)", "sections of a scheme have different names", "variable headers start in column 1"])
