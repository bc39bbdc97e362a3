#!/usr/bin/env python3
"""C26: prototype metadata written for Fortran sources (FortDecl.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from fortlab import *
from c12_fortran import CFG


def tables(text):
    """The metadata tables of a file: [table name, type, [[section, type, [variable]]]]."""
    res, cur = [], None
    for line in text.split("\n"):
        s = line.strip()
        if not s or s[0] in "#;":
            continue
        m = re.fullmatch(r"\[\s*(.*?)\s*\]", s)
        if m:
            n = m.group(1)
            if n == "ccpp-table-properties":
                cur = dict(what="table", sections=[])
                res.append(cur)
            elif n == "ccpp-arg-table":
                if not res:
                    raise ValueError("a section without a table")
                cur = dict(what="section", vars=[])
                res[-1]["sections"].append(cur)
            else:
                if not res or not res[-1]["sections"]:
                    raise ValueError("a variable without a section")
                cur = dict(what="var", local=n)
                res[-1]["sections"][-1]["vars"].append(cur)
            continue
        for part in re.split(r"\s\|\s", s):
            k, eq, v = part.partition("=")
            if not eq or cur is None:
                raise ValueError(f"what is {s!r}")
            if k.strip() in cur:
                raise ValueError(f"{k.strip()} is given twice")
            cur[k.strip()] = v.strip()
    return res


def kind(t, k):
    return "kind_phys" if t in ("real", "complex", "double precision") and not k else k


def rank(d):
    d = d.strip()
    if d[0] != "(" or d[-1] != ")":
        raise ValueError(d)
    d = d[1:-1].strip()
    return 0 if not d else d.count(",") + 1


def extents(d):
    d = d.strip()[1:-1].strip()
    return d.split(",") if d else []


def compare(t, got):
    """Differences between the tables of the source and those of the file."""
    bad, seen, std = [], [], set()
    want = {x["n"]: x for x in t["tabs"]}
    every = {v["standard_name"] for tab in got for sec in tab["sections"] for v in sec["vars"]}
    for tab in got:
        for sec in tab["sections"]:
            n = sec["name"].lower()
            seen.append(n)
            if n not in want:
                bad.append(f"there is no {n}")
                continue
            w = want[n]
            tn = re.sub(r"_(run|init|finalize)$", "", n) if w["kind"] == "scheme" else n
            if tab["name"].lower() != tn or tab["type"] != w["kind"] or sec["type"] != w["kind"]:
                bad.append(f"{n}: table {tab['name']}, types {tab['type']}, {sec['type']}")
            g = [(v["local"].lower(), v["type"].lower(), kind(v["type"].lower(), v.get("kind", "").lower()), rank(v["dimensions"]), v.get("intent", ""),
                  v.get("optional", "False").strip(".").lower() in ("true", "t")) for v in sec["vars"]]
            e = [(v["n"], v["t"], kind(v["t"], v["k"]), v["rk"], v["it"], v["op"]) for v in w["v"]]
            if g != e:
                bad.append(f"{n}: {[x for x in g if x not in e] or [x[0] for x in g]} instead of {[x for x in e if x not in g] or [x[0] for x in e]}")
            # an extent which is a variable of the table goes by that variable's name
            names = {}
            for v, e in zip(sec["vars"], w["v"]):
                for d, x in zip(extents(v["dimensions"]), e["dm"]):
                    s = d.split(":")[-1].strip()
                    if names.get(x[-1]) != (s if s in every else None):
                        bad.append(f"{n}: {v['local']} has the extent {s} instead of {names.get(x[-1], 'a name of its own')}")
                names[e["n"]] = v["standard_name"]
            for v in sec["vars"]:
                if "units" not in v:
                    bad.append(f"{n}: {v['local']} has no units")
                if v["standard_name"] in std:
                    bad.append(f"{n}: the standard name {v['standard_name']} is used twice")
                std.add(v["standard_name"])
    for x in t["tabs"]:
        if seen.count(x["n"]) > 1 or (seen.count(x["n"]) == 0 and x["v"]):
            bad.append(f"{x['n']} occurs {seen.count(x['n'])} times")
    return bad


def check(c):
    n = 8000 if c.thorough else 800
    rs = pmap(lambda k: c.tlc("FortDecl", CFG, simulate=n // NCPU, depth=400, seed=c.seed * 2017 + k), list(range(NCPU)))
    BATCH = 20

    def work(k):
        fs = ForkSrv(c)
        d = os.path.join(c.tmp, f"p{k}")
        os.makedirs(d)
        open(f"{d}/tys.meta", "w").write(TYS_META)
        open(f"{d}/tys.F90", "w").write(TYS)
        lines = rs[k].lines
        for b in range(0, len(lines), BATCH):
            part = lines[b:b + BATCH]
            cases, made = [], {}
            files = []
            for i, t in enumerate(part, b):
                f = f"c{i}.{'F' if t['fixed'] else 'F90'}"
                open(f"{d}/{f}", "w").write(source(t))
                files.append(f)
            # some at once, the others one by one
            calls = [files] if (b // BATCH) % 4 == 0 else [[f] for f in files]
            sep = [[], ["--section-separator", "########"], ["--section-separator", ";;"]][(b // BATCH) % 3]
            for q in calls:
                rc, out = fs.tool("ccpp_fortran_to_metadata.py", [",".join(["tys.F90"] + q), "--output-root", f"{d}/out"] + sep, d)
                for f in q:
                    made[f] = (rc, out)
            for i, t in enumerate(part, b):
                f = f"c{i}.{'F' if t['fixed'] else 'F90'}"
                m = f"{d}/out/c{i}.meta"
                both = lambda: "\n--- metadata\n" + (open(m).read() if os.path.exists(m) else "(none)") + "\n--- source\n" + source(t)
                c.traces += 1
                c.steps += sum(len(x["v"]) for x in t["tabs"])
                rc, out = made[f]
                if rc or not os.path.exists(m):
                    c.violation(f"p{k}:{i}:fails", f"exit status {rc}: {out[-500:]}" + both(), t)
                    continue
                try:
                    bad = compare(t, tables(open(m).read()))
                except (ValueError, KeyError) as e:
                    bad = [f"the file is not metadata: {e!r}"]
                if bad:
                    c.violation(f"p{k}:{i}:content", f"{bad[:4]}" + both(), t)
                    continue
                # metadata spell a derived type as its definition does
                open(f"{d}/c{i}.meta", "w").write(re.sub(r"(?mi)^(\s*type\s*=\s*)ty_t\s*$", r"\1ty_t", open(m).read()))
                cases.append((i, t))
            # what was written is the metadata of the source
            r = fs.op("verdicts", [[t["mode"], [f"{d}/tys.meta", f"{d}/c{i}.meta"]] for i, t in cases], ops="fortops.py")
            for (i, t), (kd, msg) in zip(cases, r["val"] or [("crash", r["out"][-400:])] * len(cases)):
                if kd and any(x["v"] for x in t["tabs"]):
                    c.violation(f"p{k}:{i}:rejected", f"the metadata are not accepted with their source: {kd} {msg[:400]}\n" + open(f"{d}/c{i}.meta").read() + source(t), t)
            if not c.samples:
                c.samples.append(dict(tabs=part[0]["tabs"]))
            shutil.rmtree(f"{d}/out", True)
            for i, t in enumerate(part, b):
                for e in (".F", ".F90", ".meta"):
                    if os.path.exists(f"{d}/c{i}{e}"):
                        os.unlink(f"{d}/c{i}{e}")
        fs.close()
    fork_map(c, work, list(range(NCPU)))


if __name__ == "__main__":
    main(check, "C26", assumptions=["dummy arguments are declared in one statement with an intent attribute",
                                    "files that define derived types come before those that use them", "a table without variables may be left out"])
