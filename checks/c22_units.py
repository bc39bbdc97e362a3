#!/usr/bin/env python3
"""C22: unit conversions of both generators (Units.tla)."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import capgenlab, preblab
from preblab import *

PAIRS = """CONSTANTS MODE = "pairs" NVAR = 1 SUITEOWNED = FALSE
INIT InitPairs
NEXT NextPairs
INVARIANT RoundTrip
INVARIANT Detour
INVARIANT Physical
INVARIANT EmitPairs
CHECK_DEADLOCK FALSE
"""
CHAINS = """CONSTANTS MODE = "chains" NVAR = 8 SUITEOWNED = %s
INIT InitChains
NEXT NextChains
INVARIANT ReadIsDirect
INVARIANT EmitChains
CHECK_DEADLOCK FALSE
"""


def apply(m, x):
    a, b, c, p = m["s"]
    return x * 2.0 ** a * 3.0 ** b * 5.0 ** c * math.pi ** p + m["o"] / 100.0


def intvar(n, std, val):
    return HostVar(n, std, "count", (), "integer", None, decl=f"integer, parameter :: {n} = {val}", log=False)


def hostvar(nm, std, units, kind, arr, ini):
    vals = ",".join(f"{ini * j}.0_{kind}" for j in (1, 2, 3))
    return HostVar(nm, std, units, ["vertical_layer_dimension"] if arr else [], "real", kind,
                   decl=f"real(kind={kind}), target :: {nm}" + (f"(3) = (/{vals}/)" if arr else f" = {ini}.0_{kind}"))


def arg(nm, std, units, kind, arr, intent, val):
    code = None
    if intent != "in":
        code = "\n".join(f"{nm}({j}) = {val * j}.0_{kind}" for j in (1, 2, 3)) if arr else f"{nm} = {val}.0_{kind}"
    return A(nm, std, units, ["vertical_layer_dimension"] if arr else [], "real", kind, intent, code=code)


def project(tool, d, hvs, schemes, order):
    if tool == "capgen":
        suite = {"name": "s0", "groups": [{"name": "g0", "items": order}]}
        return capgenlab.Project(d, [suite], schemes, hvs, kinds=["kind_phys=REAL64", "kind_r4=REAL32"])
    suite = {"name": "s0", "groups": [{"name": "g0", "subcycles": [{"loop": 1, "schemes": order}]}]}
    return preblab.PreProject(d, [suite], schemes, [intvar("ncols", "horizontal_dimension", 3), intvar("nlev", "vertical_layer_dimension", 3)] + hvs,
                              insts=[1])


def generate(tool, p, fs):
    return fs.tool("ccpp_capgen.py", p.gen_cmd()[2:], p.d) if tool == "capgen" else p.generate(fs)


def chain(c, tool, idx, t, fs):
    """One drawn configuration: three schemes and a fourth that looks at what the owner holds."""
    d = os.path.join(c.tmp, f"{tool}{idx}")
    hvs, args = [], {1: [], 2: [], 3: [], 4: []}
    for n, v in enumerate(t["cfg"], 1):
        std = f"quantity_{n}"
        if v["own"] == "host":
            hvs.append(hostvar(f"h{n}", std, v["u"], v["kind"], v["arr"], v["ini"]))
        for k, x in enumerate(v["cons"], 1):
            if x["int"] != "no":
                # prebuild does not convert kinds
                args[k].append(arg(f"a{n}", std, x["u"], x["kind"] if tool == "capgen" else v["kind"], v["arr"], x["int"], x["val"]))
    schemes = [Scheme(f"sch{k}", {"run": args[k]}) for k in args if args[k]]
    p = project(tool, d, hvs, schemes, [s.name for s in schemes])
    p.write()
    rc, out = generate(tool, p, fs)
    c.traces += 1
    if rc != 0:
        c.violation(f"{tool}:chain{idx}:rejected", f"{tool} rejects supported conversions: {out[-700:]}", t["cfg"])
        return
    rc, out = p.compile(flags=("-g", "-fcheck=all,no-recursion", "-O1"))
    if rc != 0:
        c.violation(f"{tool}:chain{idx}:compile", f"the caps of {tool} do not compile: {out[-900:]}", t["cfg"])
        return
    if tool == "capgen":
        cmds = ["init s0 _", "ts_init s0 _", "run s0 g0"]
    else:
        cmds = ["init s0 _ 1", "ts_init s0 _ 1", "run s0 _ 1"]
    rc, out = run([p.exe()], cwd=d, input="\n".join(cmds) + "\n", timeout=30)
    got = {}
    for m in re.finditer(r"^V sch(\d):run a(\d+)((?: +\S+)+) *$", out, re.M):
        got[int(m.group(2)), int(m.group(1))] = [float(x) for x in m.group(3).split()]
    r4 = any(x["kind"] == "kind_r4" for v in t["cfg"] for x in v["cons"])
    for e in t["hist"]:
        c.steps += 1
        v = t["cfg"][e["v"] - 1]
        exp = [apply(e["map"], e["val"] * j) for j in ((1, 2, 3) if v["arr"] else (1,))]
        g = got.get((e["v"], e["c"]))
        single = v["kind"] == "kind_r4" or any(x["kind"] == "kind_r4" for x in v["cons"])
        tol = 3e-6 if single else 1e-9
        # a temperature near zero loses digits to the origin
        mag = 300.0 if e["map"]["o"] or v["u"] in ("C", "K") else 0.0
        if g is None or len(g) != len(exp) or any(abs(a - b) > tol * max(abs(b), mag, 1e-30) for a, b in zip(g, exp)):
            c.violation(f"{tool}:chain{idx}:v{e['v']}c{e['c']}",
                        f"{tool}: consumer {e['c']} (in {v['cons'][e['c'] - 1]['u']}) of a variable kept in {v['u']} "
                        f"by the {v['own']} reads {g}, expected {exp}" + ("" if g else f"; output {out[-500:]}"), v)
            break
    if not os.environ.get("KEEP"):
        shutil.rmtree(d, True)


def pair(c, tool, idx, t, fs, intent, arr, ty="real"):
    """One host variable and one argument: is the pair accepted?"""
    d = os.path.join(c.tmp, f"{tool}p{idx}{ty}")
    if ty != "real":
        return nonnumeric(c, tool, d, t, fs, intent, ty)
    a = arg("a1", "quantity_1", t["v"], "kind_phys", arr, intent, 1)
    hv = hostvar("h1", "quantity_1", t["u"], "kind_phys", arr, 1)
    p = project(tool, d, [hv], [Scheme("sch1", {"run": [a]})], ["sch1"])
    p.write()
    rc, out = generate(tool, p, fs)
    c.traces += 1
    c.steps += 1
    if (rc == 0) != t["ok"]:
        c.violation(f"{tool}:{t['u']}->{t['v']}:{intent}",
                    f"{tool} {'accepts' if rc == 0 else 'rejects'} a variable in '{t['u']}' for an argument (intent {intent}) in '{t['v']}'"
                    + ("" if rc == 0 else f": {out[-500:]}"), t)
    elif rc != 0 and "quantity_1" not in out and "a1" not in out:
        c.violation(f"{tool}:{t['u']}->{t['v']}:unnamed", f"{tool} rejects '{t['u']}' to '{t['v']}' without naming the variable: {out[-400:]}", t)
    shutil.rmtree(d, True)
    return rc == 0


def nonnumeric(c, tool, d, t, fs, intent, ty):
    """Logicals and strings cannot be converted, whatever their units say."""
    k = "len=8" if ty == "character" else None
    ft = "character(len=8)" if k else ty
    p = project(tool, d, [HostVar("h1", "quantity_1", t["u"], [], ty, k, decl=f"{ft}, target :: h1", log=False)],
                [Scheme("sch1", {"run": [A("a1", "quantity_1", t["v"], [], ty, k, intent, log=False,
                                           code=None if intent == "in" else "a1 = " + ("'x'" if k else ".true."))]})], ["sch1"])
    p.write()
    rc, out = generate(tool, p, fs)
    c.traces += 1
    c.steps += 1
    if rc == 0:
        c.violation(f"{tool}:{ty}:{t['u']}->{t['v']}:{intent}", f"{tool} accepts a {ty} variable in '{t['u']}' for an argument in '{t['v']}'", t)
    shutil.rmtree(d, True)
    return rc == 0


def check(c):
    pairs = c.tlc("Units", PAIRS).lines
    nc = 640 if c.thorough else 48
    rs = pmap(lambda a: (a[0], c.tlc("Units", CHAINS % ("TRUE" if a[0] == "capgen" else "FALSE"), simulate=nc // 4,
                                     depth=80, seed=c.seed * 17 + a[1]).lines),
              [("capgen", 1), ("capgen", 2), ("capgen", 3), ("capgen", 4), ("prebuild", 5), ("prebuild", 6), ("prebuild", 7), ("prebuild", 8)])
    chains = {"capgen": [], "prebuild": []}
    for tool, ls in rs:
        chains[tool] += ls
    for tool in chains:
        if len(chains[tool]) < nc * 0.8:
            raise HarnessError("too few chains")
    diff = [p for p in pairs if p["u"] != p["v"]]
    rng = random.Random(c.seed)
    if not c.thorough:
        near = [p for p in diff if p["ok"] or p["same"]]
        far = [p for p in diff if not (p["ok"] or p["same"])]
        diff = near + rng.sample(far, 240)
    jobs = []
    for tool in ("capgen", "prebuild"):
        jobs += [("chain", tool, i, t, None, None) for i, t in enumerate(chains[tool])]
        jobs += [("pair", tool, i, t, rng.choice(["in", "inout", "out"]), rng.random() < 0.5) for i, t in enumerate(diff)]
        jobs += [(ty, tool, i, t, rng.choice(["in", "inout", "out"]), False) for ty in ("logical", "character")
                 for i, t in enumerate(rng.sample([p for p in diff if p["ok"]], 10) + rng.sample([p for p in diff if not p["ok"]], 6))]
    rng.shuffle(jobs)
    c.samples.append(chains["capgen"][0])

    def work(k):
        fs = ForkSrv(c)
        n = {}
        try:
            for kind, tool, i, t, it, arr in jobs[k::NCPU]:
                if kind == "chain":
                    chain(c, tool, i, t, fs)
                else:
                    acc = pair(c, tool, i, t, fs, it, arr, "real" if kind == "pair" else kind)
                    n[f"{tool}_{'accepted' if acc else 'rejected'}"] = n.get(f"{tool}_{'accepted' if acc else 'rejected'}", 0) + 1
        finally:
            fs.close()
        c.cov["pairs"] = n
    fork_map(c, work, list(range(NCPU)))
    c.cov["units"] = len({p["u"] for p in pairs})


if __name__ == "__main__":
    main(check, "C22", assumptions=["units are compared as they are written: two spellings of a unit are different units",
                                    "numbers are compared with a relative tolerance of 1e-9 (3e-6 in single precision)"])
