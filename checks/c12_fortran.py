#!/usr/bin/env python3
"""C12: Fortran sources against metadata (FortDecl.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from fortlab import *

CFG = """INIT Init
NEXT Next
INVARIANT ReadBack
INVARIANT Verdict
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def check(c):
    n = 16000 if c.thorough else 1600
    rs = pmap(lambda k: c.tlc("FortDecl", CFG, simulate=n // NCPU, depth=400, seed=c.seed * 1013 + k), list(range(NCPU)))
    BATCH = 20

    def work(k):
        fs = ForkSrv(c)
        d = os.path.join(c.tmp, f"p{k}")
        os.makedirs(d)
        open(f"{d}/tys.meta", "w").write(TYS_META)
        open(f"{d}/tys.F90", "w").write(TYS)
        subprocess.run(["gfortran", "-fsyntax-only", "tys.F90"], cwd=d, check=True)
        try:
            lines = rs[k].lines
            for b in range(0, len(lines), BATCH):
                cases = []
                for i, t in enumerate(lines[b:b + BATCH], b):
                    f = f"{d}/c{i}"
                    ext = "F" if t["fixed"] else "F90"
                    open(f"{f}.{ext}", "w").write(source(t))
                    open(f + ".meta", "w").write(metadata(t))
                    cases.append([t["mode"], [f"{d}/tys.meta", f + ".meta"]])
                    if i % (1 if os.environ.get("VERIF_SYNTAX") else 40) == 0:
                        p = subprocess.run(["gfortran", "-fsyntax-only", "-Wno-all", "-ffree-line-length-none", "-J", d, f"c{i}.{ext}"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                        if p.returncode != 0:
                            raise HarnessError("the drawn source is not Fortran: " + p.stdout[:1500] + open(f"{f}.{ext}").read())
                r = fs.op("verdicts", cases, ops="fortops.py")
                if r["rc"] != 0 or r["val"] is None:
                    c.violation(f"p{k}:{b}", f"reading stops with {r['out'][-600:]}", lines[b:b + BATCH])
                    continue
                for i, (t, (kind, msg)) in enumerate(zip(lines[b:b + BATCH], r["val"]), b):
                    c.traces += 1
                    c.steps += len(t["items"])
                    both = lambda: "\n--- metadata\n" + open(f"{d}/c{i}.meta").read() + "--- source\n" + open(f"{d}/c{i}.{'F' if t['fixed'] else 'F90'}").read()
                    if kind and kind not in ("CCPPError", "ParseSyntaxError"):
                        c.violation(f"p{k}:{i}:crash", f"{'differs in ' + str(t['bad']) if t['bad'] else 'agrees'}, but reading stops with {kind}: {msg[:400]}" + both(), t)
                    elif t["bad"] and not kind:
                        c.violation(f"p{k}:{i}:accepted", f"source and metadata differ in {t['bad']}, accepted:" + both(), t)
                    elif not t["bad"] and kind:
                        c.violation(f"p{k}:{i}:rejected", f"source and metadata agree, rejected ({msg[:400]}):" + both(), t)
                    elif kind and f"c{i}." not in msg and not re.search(r"(?i)sch_|hostmod|box_t|tile_type", msg):
                        c.violation(f"p{k}:{i}:message", f"the error does not say where: {msg[:400]}" + both(), t)
                    v = "rejected" if kind else "accepted"
                    c.cov[v] = c.cov.get(v, 0) + 1
                    for e in (".F" if t["fixed"] else ".F90", ".meta"):
                        os.unlink(f"{d}/c{i}{e}")
                if not c.samples:
                    c.samples.append({"mode": lines[b]["mode"], "bad": lines[b]["bad"]})
        finally:
            fs.close()
    fork_map(c, work, list(range(NCPU)))


if __name__ == "__main__":
    main(check, "C12", assumptions=["dummy arguments are declared in one statement with an intent attribute", "extents of dimensions are not compared, only the rank"])
