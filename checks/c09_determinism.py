#!/usr/bin/env python3
"""C09: the same inputs give the same output in every environment (Det.tla,
DetGen.tla, DetTrace.tla)."""
import difflib, hashlib, os, re, shutil, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from lts import SutDied
import capdata, capgenlab, datacfg, predata, preblab
from capgenlab import PY, Session, run

HERE = os.path.dirname(os.path.abspath(__file__))
RUNNER = os.path.join(HERE, "..", "harness", "detrun.py")
GEN = """CONSTANTS STRATEGY = "%s" FILES = {1, 2, 3} NAMES = {1, 2, 3} PERMUTE = %s GLOB = "%s"
INIT Init
NEXT Next
INVARIANT SameBytes
INVARIANT SameMeaning
CHECK_DEADLOCK FALSE
"""
PLAN = """CONSTANTS RUNS = %d NH = %d NS = %d NU = %d TOOL = "%s"
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


T = ["make_ddt.meta", "environ_conditions.meta", "setup_coeffs.meta", "temp_set.meta", "temp_adjust.meta", "temp_calc_adjust.meta"]
# example projects of the repository
EXAMPLES = [("advection_test", ["test_host_data.meta test_host_mod.meta", "test_host.meta"],
             ["cld_liq.meta", "cld_ice.meta", "apply_constituent_tendencies.meta"], ["cld_suite.xml"]),
            ("capgen_test", ["test_host_data.meta test_host_mod.meta", "test_host.meta"], T, ["ddt_suite.xml", "temp_suite.xml"]),
            ("ddthost_test", ["test_host_data.meta test_host_mod.meta", "host_ccpp_ddt.meta test_host.meta"], T, ["ddt_suite.xml", "temp_suite.xml"]),
            ("var_compatibility_test", ["test_host_data.meta test_host_mod.meta", "test_host.meta"],
             ["effr_calc.meta", "effr_diag.meta", "effr_pre.meta", "effr_post.meta"], ["var_compatibility_suite.xml"])]


def model(c):
    def one(x):
        strat, perm, glob, ok = x
        r = c.tlc("DetGen", GEN % (strat, perm, glob), workers=2, expect_ok=ok)
        if not ok and "SameBytes is violated" not in r.output:
            raise HarnessError(f"DetGen: the collector '{strat}' with '{glob}' should not be deterministic")
    pmap(one, (("first", "FALSE", "no", True), ("sorted", "FALSE", "no", True), ("first", "TRUE", "no", True),
                                  ("sorted", "TRUE", "listing", True), ("sorted", "FALSE", "listing", True),
                                  ("first", "FALSE", "sorted", True), ("set", "FALSE", "no", False), ("first", "FALSE", "listing", False)))


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()


def snap(out, names):
    r = {}
    for d, _, fs in os.walk(out):
        for f in fs:
            p = os.path.join(d, f)
            t = open(p, errors="replace").read()
            for a, b in names:
                t = t.replace(a, b)
            r[os.path.relpath(p, out)] = t
    return r


def xmlcanon(e):
    # a scheme entry names the file of one of the suites that call the scheme
    return [e.tag, sorted(x for x in e.attrib.items() if not (x[0] == "filename" and "subroutine_name" in e.attrib)), sorted((e.text or "").split()), sorted((xmlcanon(x) for x in e), key=json.dumps)]


def meaning(files, intents=True):
    """What is written, whatever the order."""
    r = {}
    for f, t in sorted(files.items()):
        if not intents:
            t = re.sub(r"subroutine ccpp_physics_suite_variables.*?end subroutine ccpp_physics_suite_variables", "", t, flags=re.S)
            t = re.sub(r"intent(\(\w+\) *|=\"\w+\")", "", t)
        if f.endswith(".xml"):
            try:
                r[f] = xmlcanon(ET.fromstring(t))
                continue
            except ET.ParseError:
                pass
        t = re.sub(r"&\s*\n\s*&?", " ", t)
        t = re.sub(r"\belse if\b", "if", re.sub(r"suites\(\d+\)", "suites(n)", t))
        words = []
        for line in t.split("\n"):
            words.append(" ".join(sorted(re.findall(r"[^\s,;()]+", line))))
        r[f] = sorted(words)
    return digest(r)


class Lab:
    """One project; runs it in an environment."""
    def __init__(self, c, tool, k, seed):
        self.c, self.tool, self.k = c, tool, k
        self.rng = rng = random.Random(seed)
        self.root = os.path.join(c.tmp, f"{tool}{k}")
        self.d = os.path.join(self.root, "place0", "proj")
        os.makedirs(self.d)
        self.cfg = self.p = None
        self.bad, self.n = False, 0
        if tool == "capgen" and k >= 1000 and k < 9000:
            ex, self.hosts, self.schemes, self.suites = EXAMPLES[k - 1000]
            for f in os.listdir(f"{REPO}/test/{ex}"):
                if f.endswith((".meta", ".F90", ".xml")):
                    shutil.copy(f"{REPO}/test/{ex}/{f}", self.d)
            shutil.copytree(self.d, os.path.join(self.root, "place1", "other", "proj"))
            self.host, self.kinds = "test_host", []
            return
        if tool == "capgen":
            self.cfg = datacfg.rand_data(rng, rng.choice(["conv", "opt", "suite"]), rng.choice([1, 2, 2, 3]), recs=False)
            self.p = p = datacfg.project(self.d, self.cfg, rng)
        else:
            self.cfg = predata.rand_conf(rng)
            self.p = p = predata.project(self.d, self.cfg, rng)
        deps = ["util.F90", "lib/physcons.F90", "lib/tables.F90", "machine.F90", "aux/radlw.F90"]
        for s in p.schemes:
            if rng.random() < 0.6:
                s.table_props = dict(s.table_props or {}, dependencies=",".join(rng.sample(deps, rng.randint(1, 4))))
        p.write()
        for f in deps:
            os.makedirs(os.path.dirname(os.path.join(self.d, f)), exist_ok=True)
            open(os.path.join(self.d, f), "w").close()
        self.bad = rng.random() < 0.12
        if self.bad:
            s = rng.choice(p.schemes)
            f = os.path.join(self.d, s.name + ".meta")
            t = open(f).read()
            open(f, "w").write(t.replace("  intent = in\n", "  intent = inside\n", 1) if rng.random() < 0.5 else
                               re.sub(r"standard_name = (?!ccpp|hor|ver)\w+", "standard_name = quantity_of_nobody", t))
        shutil.copytree(self.d, os.path.join(self.root, "place1", "other", "proj"))
        if tool == "capgen":
            self.host, self.kinds = p.host, p.kinds
            self.hosts = [f"{p.host}_mod.meta", f"{p.host}.meta"]
            self.schemes = [s.name + ".meta" for s in p.schemes]
            self.suites = [f"suite_{s['name']}.xml" for s in p.suites]
        else:
            self.hosts = ["ccpp_types.F90 hd.F90", "ccpp_kinds.F90"]
            self.schemes = [s.name + ".F90" for s in p.schemes]
            self.suites = [s["name"] for s in p.suites]

    def perm(self, files, order):
        # an item may be several files whose order is given (types are defined in files before those that use them)
        return " ".join(files[i - 1] for i in order).split()

    def steps(self, env, ordr, d, out, tag):
        """The command line of one generation."""
        hosts, schemes, suites = self.perm(self.hosts, ordr["h"]), self.perm(self.schemes, ordr["s"]), self.perm(self.suites, ordr["u"])
        log = os.path.join(self.root, f"log{tag}")
        if self.tool == "prebuild":
            t = open(os.path.join(d, "vcfg.py")).read()
            for old, new in ((["ccpp_types.F90", "ccpp_kinds.F90", "hd.F90"], hosts), (self.schemes, schemes)):
                assert repr(old) in t
                t = t.replace(repr(old), repr(new))
            cfg = f"vcfg{tag}.py"
            open(os.path.join(d, cfg), "w").write(t)
            for x in (self.p.caps_dir, self.p.api_dir):
                os.makedirs(x.format(build_dir=out), exist_ok=True)
            b = os.path.relpath(out, d) if env["out"] != 1 else out
            av = self.p.argv(b, suites=suites, config=os.path.join(d, cfg) if env["path"] else cfg)
            return [{"script": f"{REPO}/scripts/ccpp_prebuild.py", "argv": av, "cwd": d, "log": log}]
        cwd = {0: d, 1: os.path.join(d, "sub", "dir"), 2: os.path.join(self.root, "elsewhere")}[env["cwd"]]
        os.makedirs(cwd, exist_ok=True)

        def name(f):
            f = os.path.join(d, f)
            if env["path"] == 1:
                return f
            if env["path"] == 2:
                return os.path.join(os.path.relpath(d, cwd), "..", "proj", ".", os.path.basename(f))
            return os.path.relpath(f, cwd)

        def listed(kind, files):
            if env["via"] == 0 or (env["via"] == 2 and len(files) < 2):
                return [name(f) for f in files]
            t = os.path.join(d, f"{kind}{tag}.txt")
            k = 0 if env["via"] == 1 else 1
            with open(t, "w") as h:
                h.write("# files\n\n" + "".join(f + "\n" for f in files[k:]))
            return [name(f) for f in files[:k]] + [name(os.path.basename(t))]
        o = os.path.relpath(out, cwd) if env["out"] == 2 else out
        av = ["--host-files", ",".join(listed("hosts", hosts)), "--scheme-files", ",".join(listed("schemes", schemes)),
              "--suites", ",".join(name(f) for f in suites), "--host-name", self.host, "--output-root", o]
        for k in self.kinds:
            av += ["--kind-type", k]
        return [{"script": f"{REPO}/scripts/ccpp_capgen.py", "argv": av, "cwd": cwd, "log": log}]

    def run(self, env, ordr):
        self.n += 1
        tag = f"{self.n}"
        d = os.path.join(self.root, *(["place0"] if env["place"] == 0 else ["place1", "other"]), "proj")
        out = os.path.join(d, "build", f"out{tag}") if env["out"] in (0, 2) else os.path.join(self.root, f"o{tag}", "deep", "er", "build")
        if env["out"] == 3 or self.tool == "prebuild":
            os.makedirs(out)
        steps = []
        if env["hist"] == 1:
            steps += self.steps(env, ordr, d, out + "_before", tag + "b")
        elif env["hist"] == 2:
            o = OTHER[self.tool]
            steps += o.steps(dict(env, place=0), {x: list(range(1, len(getattr(o, y)) + 1)) for x, y in (("h", "hosts"), ("s", "schemes"), ("u", "suites"))},
                             o.d, os.path.join(self.root, f"other{tag}"), f"{self.k}_{tag}b")
        elif env["hist"] == 3:
            st = self.steps(env, ordr, d, out + "_before", tag + "b")
            st[0]["argv"][1] += "," + os.path.join(d, self.suites[0])
            st[0]["argv"][5] = os.path.join(d, "no_such_suite.xml")
            steps += st
        steps += self.steps(env, ordr, d, out, tag)
        job = {"dir": env["dir"], "steps": steps, "res": os.path.join(self.root, f"res{tag}")}
        jf = os.path.join(self.root, f"job{tag}.json")
        json.dump(job, open(jf, "w"))
        e = py_env(hashseed=str([0, 1, 2, 3, 4242][env["hash"]]))
        if env["loc"]:
            e.update(LANG="C", LC_ALL="C", TZ="Asia/Tokyo", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", COLUMNS="40", HOME="/nonexistent")
        rc, txt = run([PY, RUNNER, jf], cwd=self.root, env=e, timeout=120)
        try:
            rc = json.load(open(job["res"]))[-1]
        except OSError:
            rc = 250
        names = [(os.path.realpath(out), "@OUT@"), (os.path.realpath(d), "@PROJ@")]
        files = snap(out, names) if rc == 0 else {}
        for f in list(files):
            if f.endswith((".o", ".mod", ".tmp")):
                del files[f]
        log = open(steps[-1]["log"], errors="replace").read()
        for a, b in names:
            log = log.replace(a, b)
        self.c.steps += 1
        return {"rc": 0 if rc == 0 else 1, "files": files, "log": log, "out": out, "d": d, "cmd": steps}


OTHER = {}


def behaviour(lab, r, ident):
    """What the compiled caps do: the log of one time step of every suite."""
    p = lab.p
    keep = p.d
    p.d = r["d"]
    try:
        if lab.tool == "capgen":
            rc, o = p.compile(os.path.relpath(r["out"], r["d"]), exe="v" + ident)
        else:
            rc, o = p.compile(os.path.relpath(r["out"], r["d"]), exe="v" + ident)
        if rc:
            return "does not compile: " + o[:600]
        s = Session(p.exe("v" + ident), p.d, timeout=20).start()
        log = []
        try:
            if lab.tool == "capgen":
                n = {"s": 1, "h": lab.cfg.nc, "hi": lab.cfg.nc * (lab.cfg.nl + 1), "hv": lab.cfg.nc * lab.cfg.nl, "v": lab.cfg.nl}
                rp = capdata.Replay(lab.cfg, p)
                for std, v in sorted(lab.cfg.host.items()):
                    rp.setvals(s, std, [1 + x % 7 if v.ty != "log" else 1 for x in range(n[v.cls])])
            for su in p.suites:
                parts = [g["name"] for g in su["groups"]]
                if lab.tool == "capgen":
                    cmds = [f"register {su['name']} _", f"initial {su['name']} _"]
                for k in (capgenlab.API if lab.tool == "capgen" else preblab.PSTAGE):
                    for part in (parts if k == "run" else ["_"]):
                        if lab.tool == "capgen":
                            log.append(s.cmd(f"{k} {su['name']} {part}"))
                        else:
                            log.append(s.cmd(f"{k} {su['name']} {part} 1"))
                log.append(s.cmd("dump"))
        except SutDied as e:
            log.append(["died", re.sub(r"Error termination.*", "", str(e)[:300])])
        finally:
            s.stop()
        return json.loads(json.dumps(log))
    finally:
        p.d = keep


def project(c, item):
    tool, k, plan = item
    lab = Lab(c, tool, k, c.seed * 100003 + k * 17 + (5 if tool == "prebuild" else 0))
    obs, recs = [], []
    for st in plan:
        r = lab.run(st["env"], st["ord"])
        if r["rc"] and not lab.bad:
            c.violation(f"{tool}{k}:rejected:{len(obs)}", f"{tool} fails in environment {st['env']}: {r['log'][-600:]}", plan)
            r["rc"] = 1
        obs.append({"p": f"{tool}{k}", "ord": [st["ord"][x] for x in "hsu"], "rc": r["rc"], "bytes": digest(r["files"]),
                    "meaning": meaning(r["files"]) if r["rc"] == 0 else "rejected"})
        recs.append(r)
    # files in another order: equal up to the order of lines, or else equal in what the compiled code does
    base = None
    shared = []
    for i, o in enumerate(obs[1:], 1):
        if o["rc"] == obs[0]["rc"] == 0 and o["ord"][2] != obs[0]["ord"][2] and o["meaning"] != obs[0]["meaning"] and \
                meaning(recs[i]["files"], False) == meaning(recs[0]["files"], False):
            shared.append(i)
            o["meaning"] = obs[0]["meaning"]
    if shared:
        c.violation("the intents which another suite has for a variable", f"{tool}: the intents of the first suite include those of "
                    f"later suites, so the order of the suites matters (project {k}, runs {shared})", plan)
    for i, o in enumerate(obs[1:], 1):
        if lab.p and o["meaning"] != obs[0]["meaning"] and o["rc"] == obs[0]["rc"] == 0 and o["ord"] != obs[0]["ord"]:
            c.cov["orders_compared_by_behaviour"] = c.cov.get("orders_compared_by_behaviour", 0) + 1
            base = base or behaviour(lab, recs[0], "a")
            b = behaviour(lab, recs[i], f"b{i}")
            if b == base:
                o["meaning"] = obs[0]["meaning"]
    # differences, kept for the report
    for i, o in enumerate(obs):
        for j in range(i):
            if o["ord"] == obs[j]["ord"] and o["bytes"] != obs[j]["bytes"] or (j == 0 and o["meaning"] != obs[0]["meaning"]):
                o.setdefault("diff", {})[str(j)] = diff(recs[j]["files"], recs[i]["files"])
        o["env"] = plan[i]["env"]
    c.traces += 1
    c.cov["generations"] = c.cov.get("generations", 0) + len(plan)
    c.cov["rejected_projects"] = c.cov.get("rejected_projects", 0) + (obs[0]["rc"] != 0)
    for f in set(len({json.dumps(o["ord"]) for o in obs}) for _ in [0]):
        c.cov["orders"] = c.cov.get("orders", 0) + f
    shutil.rmtree(lab.root, True)
    return obs


def diff(a, b):
    t = []
    for f in sorted(set(a) | set(b)):
        if a.get(f) != b.get(f):
            t += list(difflib.unified_diff(a.get(f, "").split("\n"), b.get(f, "").split("\n"), f, f, lineterm="", n=0))[:8]
    return "\n".join(t)[:900]


def body(c):
    model(c)
    nc, npre, runs = (90, 60, 10) if c.thorough else (24, 12, 7)
    for tool in ("capgen", "prebuild"):
        OTHER[tool] = Lab(c, tool, 9000, 4711)
    items = []
    # the number of files decides the shape of the plan
    shapes = {}
    for tool, n in (("capgen", nc), ("prebuild", npre)):
        ex = [1000 + i for i, e in enumerate(EXAMPLES) if os.path.isdir(f"{REPO}/test/{e[0]}") and tool == "capgen"]
        for k in list(range(n)) + ex * (3 if c.thorough else 1):
            lab = Lab(c, tool, k, c.seed * 100003 + k * 17 + (5 if tool == "prebuild" else 0))
            shapes.setdefault((tool, len(lab.hosts), len(lab.schemes), len(lab.suites)), []).append(k)
            shutil.rmtree(lab.root)
    keys = sorted(shapes)
    rs = pmap(lambda s: c.tlc("Det", PLAN % (runs, s[1], s[2], s[3], s[0]), simulate=len(shapes[s]), depth=runs + 1,
                              seed=c.seed * 31 + keys.index(s)), keys)
    for s, r in zip(keys, rs):
        for k, plan in zip(shapes[s], r.lines):
            items.append((s[0], k, plan))
    obs = fork_map(c, lambda it: project(c, it), items)
    flat = [o for os_ in obs for o in os_]
    f = os.path.join(c.tmp, "obs.ndjson")
    with open(f, "w") as h:
        for o in flat:
            h.write(json.dumps({x: o[x] for x in ("p", "ord", "rc", "bytes", "meaning")}) + "\n")
    r = c.tlc("DetTrace", "INIT Init\nNEXT Next\nINVARIANT Functional\nCHECK_DEADLOCK FALSE\n",
              modules={"TraceData": f'---- MODULE TraceData ----\nEXTENDS Json\nObs == ndJsonDeserialize("{f}")\n====\n'})
    if r.distinct < len(flat):
        raise HarnessError("DetTrace did not read all observations")
    for b in r.lines:
        o, j = flat[b["i"] - 1], flat[b["j"] - 1]
        what = "the generated files differ" if b["what"] == "bytes" else "the meaning of the generated files differs"
        start = min(i for i, x in enumerate(flat) if x["p"] == o["p"])
        df = o.get("diff", {}).get(str(b["j"] - 1 - start), "") or o.get("diff", {}).get("0", "")
        c.violation(f"{o['p']}:{b['what']}:{b['i'] - 1 - start}", f"{what} between the environments {j['env']} (order {j['ord']}, rc {j['rc']}) and "
                    f"{o['env']} (order {o['ord']}, rc {o['rc']}):\n{df}", [j, o])
    c.samples += [{k: flat[1][k] for k in ("p", "ord", "env")}]


if __name__ == "__main__":
    main(body, "C09", assumptions=["meaning of reordered inputs: the same lines up to their order, or else the same logs of one time step of every "
                                   "suite of the compiled caps"])
