#!/usr/bin/env python3
"""C24: which configurations prebuild accepts (StaticAccept.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from preblab import *

CFG = """INIT Init
NEXT Next
INVARIANT SameVerdict
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
HD = {"V": "vertical_layer_dimension", "I": "vertical_interface_dimension", "N": "number_of_things", "U": "number_of_unknowns"}
EXT = {"H": "ncols", "V": "nlev", "I": "nlevp", "N": "nthings", "U": "2"}
LOCAL = ["a%d" % k for k in range(1, 9)] + ["x", "y", "temp", "q", "ncol_loc", "tt", "zz", "hx0", "dq", "ptr", "tmp", "lev", "flag", "n"]


def value(a):
    return {"real": "1.5", "integer": "3", "logical": ".true.", "character": "'ab'"}[a["ty"]]


def project(d, t, rng):
    phs, names = {}, {}
    for e in t["entry"]:
        al, used = [], set()
        for i, a in enumerate(e["args"]):
            nm = rng.choice([x for x in LOCAL if x not in used])
            used.add(nm)
            names[e["c"], e["p"], i + 1] = nm
            dims = [("horizontal_loop_extent" if e["p"] == "run" else "horizontal_dimension") if x == "H" else HD[x] for x in a["d"]]
            al.append(A(nm, a["std"], a["u"], dims, a["ty"], a["kind"] or None, a["int"], log=False,
                        code=f"{nm} = {value(a)}" if a["int"] != "in" else None, **({"optional": "True"} if a["opt"] else {})))
        key = {"ts_final": "ts_final:timestep_finalize", "final": "final:finalize"}.get(e["p"], e["p"])
        phs.setdefault(e["c"], {})[key] = al
    schemes = [Scheme(c, phs[c]) for c in sorted(phs)]
    rng.shuffle(schemes)
    ints = lambda n, std, val: HostVar(n, std, "count", (), "integer", None, decl=f"integer, parameter :: {n} = {val}")
    hv = [ints("ncols", "horizontal_loop_extent", 3), ints("ncd", "horizontal_dimension", 3), ints("nlev", HD["V"], 2),
          ints("nlevp", HD["I"], 3), ints("nthings", HD["N"], 2),
          HostVar("is_active", "activation_flag", "flag", (), "logical", None, decl="logical :: is_active = .true.")]
    for std, v in sorted(t["host"].items()) if t["host"] else []:
        pr = {}
        if v["act"]:
            pr["active"] = "(activation_flag)" if v["act"] == "known" else "(flag_of_nobody)"
        ts = v["ty"] + (f"({v['kind']})" if v["kind"].startswith("len") else f"(kind={v['kind']})" if v["kind"] else "")
        shp = "(" + ",".join(EXT[x] for x in v["d"]) + ")" if v["d"] else ""
        for k in range(2 if v["dup"] else 1):
            nm = "h_" + std + ("_again" if k else "")
            hv.append(HostVar(nm, std, v["u"], ["horizontal_dimension" if x == "H" else HD[x] for x in v["d"]], v["ty"],
                              v["kind"] or None, decl=f"{ts}, target :: {nm}{shp}", log=False, **pr))
    suites = [{"name": ("s%d" % k) + ("_" + "x" * 40 if t["sdef"][k - 1] == "long" else ""),
               "groups": [{"name": "g%d" % j, "subcycles": [{"loop": 1, "schemes": g}]} for j, g in enumerate(s, 1)]}
              for k, s in enumerate(t["suites"], 1)]
    for s, df in zip(suites, t["sdef"]):
        if df == "scheme":
            sc = rng.choice(s["groups"])["subcycles"][0]["schemes"]
            sc.insert(rng.randint(0, len(sc)), "scheme_of_nobody")
    p = PreProject(d, suites, schemes, hv, insts=[1])
    p.write()
    for s, df in zip(suites, t["sdef"]):
        f = os.path.join(d, s["name"] + ".xml")
        if df == "nofile":
            os.remove(f)
        elif df == "name":
            os.rename(f, f + "~")
            with open(f, "w") as h:
                h.write(open(f + "~").read().replace(f'name="{s["name"]}"', 'name="another"', 1))
    return p, names


WORD = {"nofile": "suite", "name": "another", "scheme": "scheme_of_nobody", "long": "characters"}


def named(t, names, out):
    for f in t["bad"]:
        if f["p"] == "suite":
            w = [WORD[f["what"]], "s%d" % f["i"]]
        elif f["p"] == "host":
            w = [f["std"]]
        else:
            w = [f["std"], names[f["c"], f["p"], f["i"]]]
            if f["what"] == "dims":
                w.append("number_of_unknowns")
            elif f["what"] == "active":
                w.append("flag_of_nobody")
        if any(re.search(rf"\b{re.escape(x)}\b", out, re.I) for x in w):
            return True
    return False


def judge(c, idx, t, rng, fs, compile=True):
    d = os.path.join(c.tmp, f"a{idx}")
    p, names = project(d, t, rng)
    rc, out = p.generate(fs)
    c.traces += 1
    c.steps += 1
    r = None
    if t["bad"]:
        if rc == 0:
            r = ("accepted", f"accepts what the host cannot satisfy: {t['bad']}")
        elif not t["iffy"] and not named(t, names, out):
            r = ("unnamed", f"rejects {t['bad']} without naming what is wrong: {out[-600:]}")
    elif rc != 0 and not t["iffy"]:
        r = ("rejected", f"rejects a consistent configuration: {out[-900:]}")
    elif rc == 0 and compile:
        crc, cout = p.compile()
        if crc != 0:
            r = ("compile", f"accepted, but the caps do not compile: {cout[-1000:]}")
    if r:
        c.violation(f"c{idx}:{r[0]}", r[1], t)
    if not r or not os.environ.get("KEEP"):
        shutil.rmtree(d, True)
    return "accepted" if rc == 0 else "rejected"


def check(c):
    n = 6000 if c.thorough else 720
    nw = NCPU
    rs = pmap(lambda k: c.tlc("StaticAccept", CFG, simulate=n // nw, depth=300, seed=c.seed * 1013 + k), list(range(nw)))
    ts = [t for r in rs for t in r.lines]
    if len(ts) < n * 0.8:
        raise HarnessError(f"only {len(ts)} configurations")

    def work(k):
        fs = ForkSrv(c)
        cnt = {"accepted": 0, "rejected": 0}
        try:
            for i in range(k, len(ts), nw):
                cnt[judge(c, i, ts[i], random.Random(c.seed * 7909 + i), fs)] += 1
                if not c.samples:
                    c.samples.append(ts[i])
        finally:
            fs.close()
        c.cov["verdicts"] = cnt
    fork_map(c, work, list(range(nw)))
    c.cov["configurations"] = len(ts)


if __name__ == "__main__":
    main(check, "C24", assumptions=["tables that no suite calls may or may not be checked: no verdict is required for what is wrong only there"])
