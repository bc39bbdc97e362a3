#!/usr/bin/env python3
"""C14: line wrapping (FortLine.tla, FortWrap.tla, FortText.tla, FortCheck.tla)."""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

MODEL = """INIT Init
NEXT Next
INVARIANT Recovered
INVARIANT Breakable
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = %d
 Alphabet = {97, 32, 44, 47, 39, 33}
"""
TEXT = """INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
"""


def text(t, rng):
    """The statement of the drawn atoms."""
    s, q, com = "", None, False
    name = lambda n: (rng.choice("abcxyz") + "".join(rng.choice("abcdefgh_0189") for _ in range(n)))[:n]
    for a in t["atoms"]:
        if a["k"] not in ("littext",) and q:
            s, q = s + q, None
        if a["k"] == "text" and s.endswith("/") and a["s"][0] == "/" and not q:
            s += name(2)
        if a["k"] == "word":
            s += name(a["n"])
        elif a["k"] == "text":
            s += a["s"]
        elif a["k"] == "lit":
            s += a["q"] + "".join(lit(a["s"], a["q"]) for _ in range(rng.choice((1, 1, 2, 3)))) + a["q"]
        elif a["k"] == "littext":
            if not q:
                q = rng.choice("'\"")
                s += q
            s += lit(a["s"], q)
        else:
            if not com:
                s, com = s + rng.choice(("! ", "!", " ! ", "  !! ", "!> ")), True
            s += {"QUOTE": "'", "OTHER": '"'}.get(a["s"], a["s"])
    s = (s + (q or "")).strip()
    return s if s and s[0] != "&" else "x = 1"


def lit(p, q):
    return q + q if p == "QUOTE" else ("'" if q == '"' else '"') if p == "OTHER" else p


def check(c):
    r = c.tlc("FortWrap", MODEL % (6 if c.thorough else 5), workers=NCPU, timeout=1500)
    n = 40000 if c.thorough else 6400
    rs = pmap(lambda k: c.tlc("FortText", TEXT, simulate=n // NCPU, depth=100, seed=c.seed * 1013 + k), list(range(NCPU)))

    def work(k):
        rng = random.Random(c.seed * 31 + k)
        items, fs = [], ForkSrv(c)
        try:
            for t in rs[k].lines:
                w = t["w"]
                dflt = (w["fill"], w["max"]) == (97, 130)
                s = text(t, rng)
                if s.isspace() or not s:
                    continue
                items.append((s, w["ind"], w["fill"], w["max"], dflt))
            d = os.path.join(c.tmp, f"w{k}")
            os.makedirs(d)
            r0 = fs.op("write", {"dir": d, "items": [(s, i, None if df else f, m) for s, i, f, m, df in items]}, ops="wrapops.py")
            rc, out, res = r0["rc"], r0["out"], r0["val"]
            if rc != 0 or res is None:
                c.violation(f"w{k}:crash", f"the writer cannot be used: {out[-800:]}")
                return
            # the same statements as a list, and as lines of one text
            j = rng.sample(range(len(items)), min(40, len(items)))
            ls = [(a, b) for a, b in zip(j, j[1:]) if items[a][1:] == items[b][1:] or True]
            multi = []
            for a, b in ls:
                s, i, f, m, df = items[a]
                two = [s, items[b][0]]
                multi.append((two, i, None if df else f, m))
                multi.append(("\n".join(two), i, None if df else f, m))
                multi.append((two[0], i, None if df else f, m))
                multi.append((two[1], i, None if df else f, m))
            mres = fs.op("write", {"dir": d, "items": multi}, ops="wrapops.py")["val"]
            for x in range(0, len(multi), 4):
                e = [mres[x + y] for y in range(4)]
                if any(y[0] for y in e):
                    continue
                if e[0][1] != e[2][1] + e[3][1] or e[1][1] != e[2][1] + e[3][1]:
                    c.violation(f"w{k}:several:{x}", f"several statements are not written like one after the other: {multi[x]}: {e[0][1]} / {e[1][1]}")
                c.steps += 1
        finally:
            fs.close()
        recs, keep = [], []
        for (s, i, f, m, df), (err, lines) in zip(items, res):
            c.traces += 1
            if err:
                c.violation(f"w{k}:{s[:60]}", f"the writer raises {err} for {s!r} (indentation {i}, limits {f}, {m})")
                continue
            recs.append({"stmt": [ord(x) for x in s], "lines": [[ord(x) for x in l] for l in lines], "ind": 3 * i, "fill": f, "max": m})
            keep.append((s, i, f, m, lines))
        fn = os.path.join(c.tmp, f"rec{k}.ndjson")
        with open(fn, "w") as h:
            h.write("\n".join(json.dumps(x) for x in recs) + "\n")
        tr = c.tlc("FortCheck", TRACE, timeout=800, modules={"TraceData": f'---- MODULE TraceData ----\nLOCAL INSTANCE Json\nRecorded == ndJsonDeserialize("{fn}")\n====\n'})
        c.steps += sum(len(x["lines"]) for x in recs)
        for e in tr.lines:
            s, i, f, m, lines = keep[e["i"] - 1]
            if "invalid" in e["bad"]:
                raise HarnessError(f"drawn statement is not legal: {s!r} {e}")
            c.violation(f"w{k}:{s[:60]}", f"{e['bad']}: statement {s!r} (indentation {i}, limits {f}, {m}) is written as " + "\n".join([""] + lines),
                        dict(statement=s, lines=lines, indent=i, fill=f, max=m))
        c.cov["wrapped"] = sum(len(x[4]) > 1 for x in keep)
        if not c.samples and keep:
            c.samples.append(dict(statement=keep[0][0], lines=keep[0][4]))
    fork_map(c, work, list(range(NCPU)))


if __name__ == "__main__":
    main(check, "C14")
