#!/usr/bin/env python3
"""C06: which configurations capgen accepts (CapAccept.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from capgenlab import *

CFG = """CONSTANT Only = {%s}
INIT Init
NEXT Next
INVARIANT SameVerdict
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
HD = {"H": "horizontal_dimension", "V": "vertical_layer_dimension", "I": "vertical_interface_dimension",
      "N": "number_of_things", "U": "number_of_unknowns", "L": "horizontal_loop_extent",
      "Z": "0:vertical_layer_dimension", "B": "base_index:vertical_layer_dimension"}
EXT = {"H": "ncols", "V": "nlev", "I": "nlevp", "N": "nthings", "Z": "0:nlev", "B": "ibase:nlev"}
LOCAL = ["a%d" % k for k in range(1, 9)] + ["x", "y", "temp", "q", "ncol_loc", "tt", "zz", "hx0", "dq", "ptr", "tmp", "lev", "flag", "n"]


def value(a):
    return {"real": "1.5", "integer": "3", "logical": ".true.", "character": "'ab'"}[a["ty"]]


def project(d, t, rng):
    """The project of a configuration; also the names of every argument."""
    phs, names = {}, {}
    for e in t["entry"]:
        al, used = [], set()
        for i, a in enumerate(e["args"]):
            nm = rng.choice([x for x in LOCAL if x not in used])
            used.add(nm)
            names[e["c"], e["p"], i + 1] = nm
            dims = [("horizontal_loop_extent" if x == "H" and e["p"] == "run" else HD[x]) for x in a["d"]]
            pr = {}
            if a["opt"]:
                pr["optional"] = "True"
            if a["top"]:
                pr["top_at_one"] = "True"
            if a["dflt"]:
                pr["default_value"] = value(a) + ("_" + a["kind"] if a["ty"] == "real" and a["kind"] else "")
            al.append(A(nm, a["std"], a["u"], dims, a["ty"], a["kind"] or None, a["int"], log=False,
                        code=f"{nm} = {value(a)}" if a["int"] != "in" else None, **pr))
        phs.setdefault(e["c"], {})[e["p"]] = al
    schemes = [Scheme(c, phs[c]) for c in sorted(phs)]
    hv = [HostVar("nthings", "number_of_things", "count", (), "integer", None, decl="integer, parameter :: nthings = 2", protected="True"),
          HostVar("ibase", "base_index", "index", (), "integer", None, decl="integer, parameter :: ibase = 0", protected="True"),
          HostVar("is_active", "activation_flag", "flag", (), "logical", None, decl="logical :: is_active = .true.")]
    for std, v in sorted(t["host"].items()) if t["host"] else []:
        pr = {}
        if v["act"]:
            pr["active"] = "(activation_flag)"
        if v["prot"]:
            pr["protected"] = "True"
        if v["top"]:
            pr["top_at_one"] = "True"
        hv.append(HostVar("h_" + std, std, v["u"], [HD[x] for x in v["d"]], v["ty"], v["kind"] or None,
                          shape=[EXT[x] for x in v["d"]] or None, log=False, **pr))
    suites = [{"name": "s%d" % k, "groups": [{"name": "g%d" % j, "items": g} for j, g in enumerate(s, 1)]}
              for k, s in enumerate(t["suites"], 1)]
    p = Project(d, suites, schemes, hv, ncols=3, nlev=2, kinds=["kind_phys=REAL64", "kind_r4=REAL32"])
    p.write()
    return p, names


def judge(c, idx, t, rng, fs, compile=True):
    d = os.path.join(c.tmp, f"a{idx}")
    p, names = project(d, t, rng)
    if fs:
        rc, out = fs.tool("ccpp_capgen.py", p.gen_cmd()[2:], d)
    else:
        rc, out = p.generate()
    caps = glob.glob(d + "/out/*.F90") + glob.glob(d + "/out/*.xml")
    c.traces += 1
    c.steps += 1
    r = None
    if t["bad"]:
        if rc == 0:
            r = ("accepted", f"accepts a configuration with a wrong argument: {t['bad']}")
        elif caps:
            r = ("caps", f"fails, but writes {[os.path.basename(x) for x in caps]}")
        else:
            ok = False
            for (cp, i, std) in t["bad"]:
                nm = names[cp[0], cp[1], i]
                if std.lower() in out.lower() or re.search(rf"\b{nm}\b", out.split("Traceback")[-1]):
                    ok = True
            if not ok:
                r = ("unnamed", f"rejects {t['bad']} without naming the variable: {out[-500:]}")
    elif rc != 0:
        r = ("rejected", f"rejects a consistent configuration: {out[-700:]}")
    elif compile:
        crc, cout = p.compile()
        if crc != 0:
            r = ("compile", f"accepted, but the caps do not compile: {cout[-1000:]}")
    if r:
        c.violation(f"c{idx}:{r[0]}", r[1], t)
    if not r or not os.environ.get("KEEP"):
        shutil.rmtree(d, True)
    return "accepted" if rc == 0 else "rejected"


def accept(c, n, only=""):
    nw = NCPU
    parts = list(range(nw))

    def gen(k):
        r = c.tlc("CapAccept", CFG % only, simulate=n // nw, depth=300, seed=c.seed * 1009 + k)
        return r

    rs = pmap(gen, parts)
    ts = [t for r in rs for t in r.lines]
    if len(ts) < n * 0.8:
        raise HarnessError(f"only {len(ts)} configurations")

    def work(k):
        fs = ForkSrv(c)
        cnt = {"accepted": 0, "rejected": 0}
        try:
            for i in range(k, len(ts), nw):
                rng = random.Random(c.seed * 7907 + i)
                cnt[judge(c, i, ts[i], rng, fs, compile=c.thorough or not ts[i]["bad"])] += 1
                if not c.samples:
                    c.samples.append(ts[i])
        finally:
            fs.close()
        c.cov["verdicts"] = cnt
    fork_map(c, work, parts)
    c.cov["configurations"] = len(ts)


def check(c):
    accept(c, 4000 if c.thorough else 440)


if __name__ == "__main__":
    main(check, "C06", assumptions=["run phase arguments are dimensioned by the loop extent",
                                    "optional arguments are provided by the host"])
