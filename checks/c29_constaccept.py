#!/usr/bin/env python3
"""C29: which constituents and tendencies capgen accepts (ConstAccept.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from capgenlab import *

CFG = """INIT Init
NEXT Next
INVARIANT SameVerdict
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
HD = {"H": "horizontal_dimension", "V": "vertical_layer_dimension", "I": "vertical_interface_dimension", "N": "number_of_things"}
LOCAL = ["a%d" % k for k in range(1, 7)] + ["x", "q", "tt", "zz", "dq", "tmp", "dust", "ozone", "const", "index"]


def project(d, t, rng):
    """The project of a configuration; also the local names per standard name"""
    phs, names = {}, {}
    for e in t["entry"]:
        al, used = [], set()
        for a in e["args"]:
            nm = rng.choice([x for x in LOCAL if x not in used])
            used.add(nm)
            std = ("tendency_of_" if a["t"] else "") + a["n"]
            names.setdefault(std, set()).add(nm)
            dims = [("horizontal_loop_extent" if x == "H" and e["p"] == "run" else HD[x]) for x in a["d"]]
            pr = {a["fl"]: "True"} if a["fl"] else {}
            if a["fl"] and not a["t"] and rng.random() < 0.3:
                pr["default_value"] = f"{rng.randint(0, 9)}.5_{a['kind']}" if a["ty"] == "real" else "4"
            val = "1" if a["ty"] == "integer" else "1.0"
            al.append(A(nm, std, a["u"], dims, a["ty"], a["kind"] or None, a["int"], log=False,
                        code=f"{nm} = {val}" if a["int"] != "in" else None, **pr))
        phs.setdefault(e["c"], {})[e["p"]] = al
    for c in {x for s in t["suites"] for g in s for x in g} - set(phs):
        phs[c] = {"run": []}
    schemes = [Scheme(c, phs[c]) for c in sorted(phs)]
    hv = [HostVar("nthings", "number_of_things", "count", (), "integer", None, decl="integer, parameter :: nthings = 2", protected="True")]
    for std, v in sorted(t["host"].items()) if t["host"] else []:
        hv.append(HostVar("h_" + std, std, v["u"], [HD[x] for x in v["d"]], shape=["ncols", "nlev"], log=False))
    suites = [{"name": "s%d" % k, "groups": [{"name": "g%d" % j, "items": g} for j, g in enumerate(s, 1)]}
              for k, s in enumerate(t["suites"], 1)]
    p = Project(d, suites, schemes, hv, ncols=3, nlev=2, kinds=["kind_phys=REAL64", "kind_r4=REAL32"])
    p.write()
    return p, names


def judge(c, idx, t, rng, fs, compile):
    d = os.path.join(c.tmp, f"a{idx}")
    p, names = project(d, t, rng)
    rc, out = fs.tool("ccpp_capgen.py", p.gen_cmd()[2:], d)
    caps = glob.glob(d + "/out/*.F90") + glob.glob(d + "/out/*.xml")
    c.traces += 1
    c.steps += 1
    r = None
    if t["bad"]:
        if rc == 0:
            r = ("accepted", f"accepts a configuration with a wrong constituent: {t['bad']}")
        elif caps:
            r = ("caps", f"fails, but writes {[os.path.basename(x) for x in caps]}")
        else:
            last = out.split("Traceback")[-1]
            if not any(b in out or any(re.search(rf"\b{n}\b", last) for n in names[b]) for b in t["bad"]):
                r = ("unnamed", f"rejects {t['bad']} without naming the variable: {out[-500:]}")
    elif rc != 0:
        r = ("rejected", f"rejects a consistent configuration: {out[-700:]}")
    elif compile:
        crc, cout = p.compile()
        if crc != 0:
            r = ("compile", f"accepted, but the caps do not compile: {cout[-1000:]}")
        c.cov["compiled"] += 1
    if r:
        c.violation(f"c{idx}:{r[0]}", r[1], t)
    if not r or not os.environ.get("KEEP"):
        shutil.rmtree(d, True)
    return "accepted" if rc == 0 else "rejected"


def check(c):
    n = 6000 if c.thorough else 480
    nw = NCPU

    def gen(k):
        return c.tlc("ConstAccept", CFG, simulate=n // nw, depth=300, seed=c.seed * 1009 + k)

    ts = [t for r in pmap(gen, range(nw)) for t in r.lines]
    if len(ts) < n * 0.8:
        raise HarnessError(f"only {len(ts)} configurations")
    accepted = [i for i in range(len(ts)) if not ts[i]["bad"]]
    comp = set(accepted if c.thorough else accepted[:200])

    def work(k):
        fs = ForkSrv(c)
        cnt = {"accepted": 0, "rejected": 0}
        c.cov["compiled"] = 0
        try:
            for i in range(k, len(ts), nw):
                rng = random.Random(c.seed * 7907 + i)
                cnt[judge(c, i, ts[i], rng, fs, i in comp)] += 1
                if not c.samples:
                    c.samples.append(ts[i])
        finally:
            fs.close()
        c.cov["verdicts"] = cnt
    fork_map(c, work, list(range(nw)))
    c.cov["configurations"] = len(ts)


if __name__ == "__main__":
    main(check, "C29", assumptions=["constituents are stored with kind kind_phys; a declaration without kind means this kind",
                                    "without a flag, a constituent is only read or modified"])
