#!/usr/bin/env python3
"""C19: the static API tracks initialization per instance (StaticApi.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from preblab import *
from lts import Lts, SutDied

CFG = """INIT Init
NEXT Next
VIEW view
INVARIANT TypeOK
PROPERTY Refused
PROPERTY Independent
PROPERTY Idempotent
PROPERTY Complete
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
CODES = {"init": 11, "ts_init": 2, "run": 99, "ts_final": 5, "final": -3}


def rand_config(rng, i):
    nsch = rng.randint(2, 4)
    schemes = {}
    for k in range(nsch):
        st = [p for p in PSTAGE if rng.random() < (0.8 if p == "run" else 0.45)]
        st = st or [rng.choice(list(PSTAGE))]
        schemes["sch_" + "abcd"[k]] = st
    ns = [1, 2, 1][i % 3]
    suites = []
    gnames = ["g1", "g2", "phys", "radiation"]
    total = 0
    for s in range(ns):
        groups = []
        for g in rng.sample(gnames, rng.randint(1, 3 if ns == 1 else 2)):
            subs = []
            for _ in range(rng.randint(1, 3)):
                subs.append({"loop": rng.choice([1, 1, 2, 3]),
                             "schemes": [rng.choice(list(schemes)) for _ in range(rng.randint(1, 3))]})
            groups.append({"name": g, "subcycles": subs})
        total += len(groups)
        suites.append({"name": ["s", "ss", "phys_suite"][rng.randint(0, 2)] if s == 0 else "other", "groups": groups})
    insts = rng.choice([[1, 2], [1, 200], [3, 7], [2, 1]])
    if total <= 2 and rng.random() < 0.5:
        insts = [1, 2, 200]
    return {"suites": suites, "entry": schemes, "insts": sorted(insts)}


def tla(cfg, failtags, bads, badg):
    q = lambda x: '"' + x + '"'
    st = lambda xs: "{" + ", ".join(xs) + "}"
    sq = lambda xs: "<<" + ", ".join(xs) + ">>"
    used = sorted({x for s in cfg["suites"] for g in s["groups"] for c in g["subcycles"] for x in c["schemes"]})
    G = "[s \\in Suites |-> CASE " + " [] ".join(
        f's = {q(s["name"])} -> ' + sq([sq([q(g["name"]), sq([sq([str(c["loop"]), sq([q(x) for x in c["schemes"]])])
                                                             for c in g["subcycles"]])]) for g in s["groups"]])
        for s in cfg["suites"]) + "]"
    E = "[c \\in " + st([q(x) for x in used]) + " |-> CASE " + " [] ".join(
        f'c = {q(x)} -> ' + st([q(p) for p in cfg["entry"][x]]) for x in used) + "]"
    return f"""---- MODULE StaticCfg ----
Suites == {st([q(s["name"]) for s in cfg["suites"]])}
BadSuites == {st([q(x) for x in bads])}
BadGroups == {st([q(x) for x in badg])}
Groups == {G}
Entry == {E}
Insts == {st([str(x) for x in cfg["insts"]])}
FailTags == {st([sq([q(a), q(b)]) for a, b in failtags])}
====
"""


class Sut:
    def __init__(self, p):
        self.p = p

    def start(self):
        self.s = Session(self.p.exe(), self.p.d, timeout=10).start()
        self.fail = ("-", "-")

    def stop(self):
        self.s.stop()

    def do(self, a):
        if a["op"] == "fail":
            self.fail = (a["scheme"], a["stage"])
            self.s.cmd(f"fail {a['scheme']}:{a['stage']} {CODES.get(a['stage'], 0)}")
            return {"err": "ok", "ev": []}
        g = "_" if a["group"] == "*" else a["group"]
        ev, vals, ans = self.s.cmd(f"{a['stage']} {a['suite']} {g} {a['inst']}")
        ierr, errflg = ans.split()[:2]
        evs = []
        for e in ev:
            c, _, ph = e.rpartition(":")
            evs.append(c if ph == a["stage"] else e)
        bad = [v for v in vals if v[1:2] == ["inst"] and v[2] != str(a["inst"])]
        if bad:
            evs.append(f"wrong instance {bad[0]}")
        return {"ierr": int(ierr), "errflg": int(errflg), "msg": ans.split("[", 1)[-1].rstrip("]"), "ev": evs,
                "code": CODES.get(self.fail[1], 0), "tag": ":".join(self.fail)}


def match(r, resp):
    r = json.loads(r)
    if "crash" in resp:
        return False
    if "ierr" not in resp:
        return resp == r
    if resp["ev"] != r["ev"]:
        return False
    if r["err"] == "ok":
        return resp["ierr"] == 0 and resp["errflg"] == 0
    if r["err"] == "scheme":
        return resp["ierr"] == resp["errflg"] == resp["code"] and f"failed in {resp['tag']}" in resp["msg"]
    # refused, unknown: an error reported either way, with a message
    return resp["ierr"] != 0 and resp["errflg"] != 0 and resp["msg"] not in ("", "unset")


def build(d, cfg, rng):
    x = ("horizontal_loop_extent",)
    schemes = []
    for n, st in cfg["entry"].items():
        ph = {}
        for p in st:
            a = []
            if rng.random() < 0.6:
                a.append(A("inst", "ccpp_instance", "index", (), "integer", None, "in"))
            if p == "run" and rng.random() < 0.3:
                a.append(A("x", "some_x", "m", x, intent="inout", log=False))
            ph[p if p != "ts_final" and p != "final" else f"{p}:{PSTAGE[p]}" if p == "ts_final" else "final:finalize"] = a
        schemes.append(Scheme(n, ph, fail_late=rng.random() < 0.5))
    host = [HostVar("ncols", "horizontal_loop_extent", "count", (), "integer", None, decl="integer, parameter :: ncols=4"),
            HostVar("ncd", "horizontal_dimension", "count", (), "integer", None, decl="integer, parameter :: ncd=4"),
            HostVar("x", "some_x", "m", x, shape=["ncols"])]
    p = PreProject(d, cfg["suites"], schemes, host, insts=cfg["insts"], legacy=rng.random() < 0.4,
                   namespace=rng.choice(["", "", "nsp"]), api_dir=rng.choice(["{build_dir}", "{build_dir}/api"]),
                   caps_dir=rng.choice(["{build_dir}", "{build_dir}/caps"]))
    p.write()
    return p


def check(c):
    n = 64 if c.thorough else 24
    jobs = []
    for i in range(n):
        rng = random.Random(c.seed * 131 + i)
        jobs.append((i, rand_config(rng, i), rng))

    def one(j):
        i, cfg, rng = j
        name = f"cfg{i}"
        d = os.path.join(c.tmp, name)
        p = build(d, cfg, rng)
        extra = ["--debug"] if rng.random() < 0.25 else []
        rc, out = p.generate(extra=extra)
        if rc != 0:
            c.violation(f"{name}:generate", f"prebuild rejects suites {cfg}: {out[-800:]}", {"config": cfg})
            return
        rc, out = p.compile()
        if rc != 0:
            c.violation(f"{name}:compile", f"generated caps do not compile: {out[-1500:]}", {"config": cfg})
            return
        names = [s["name"] for s in cfg["suites"]]
        gn = sorted({g["name"] for s in cfg["suites"] for g in s["groups"]})
        bads = sorted({x for x in [names[0] + "x", names[-1][:-1] or "q"] if x not in names})
        badg = sorted({x for x in [gn[0][:-1], rng.choice(["init", "finalize", gn[-1] + "2"])] if x not in gn})[:1]
        used = {x for s in cfg["suites"] for g in s["groups"] for sc in g["subcycles"] for x in sc["schemes"]}
        tags = [(k, p_) for k in sorted(used) for p_ in cfg["entry"][k]]
        fails = rng.sample(tags, min(2, len(tags)))
        r = c.tlc("StaticApi", CFG, modules={"StaticCfg": tla(cfg, fails, bads, badg)})
        lts = Lts(r.lines, [[[], ["-", "-"]]])
        lts.walk(Sut(p), c, name, rng=rng, max_steps=80000 if c.thorough else 12000, restart_every=1500,
                 timeout=200 if c.thorough else 30, match=match)
        if len(c.samples) < 3:
            c.samples.append(cfg)
        shutil.rmtree(d, True)
        return r.distinct, r.states
    for r in fork_map(c, one, jobs):
        if r:
            c.states += r[0]
            c.transitions += r[1]
    c.cov["configurations"] = n


main(check, "C19", assumptions=["schemes terminate and report errors through ccpp_error_code",
                                "suites consist of groups with subcycles (no <init>/<finalize> suite items)"])
