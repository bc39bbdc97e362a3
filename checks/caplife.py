"""Shared by C01 and C02: conformance of generated caps to CapLifecycle.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from lts import Lts, SutDied
from capgenlab import *
from capcfg import *

CFG = """INIT Init
NEXT Next
VIEW view
INVARIANT TypeOK
PROPERTY IllegalIsRefused
PROPERTY OneSuiteMoves
PROPERTY OnlyEntryPoints
PROPERTY OncePerFullPhase
PROPERTY RunNeedsTimestep
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


class CapSut:
    """The compiled generated caps driven through the host API."""
    def __init__(self, proj, full):
        self.proj, self.full = proj, full
        self.code = 0

    def start(self):
        self.s = Session(self.proj.exe(), self.proj.d, timeout=10).start()
        self.code = 0
        self.thread = 0

    def stop(self):
        self.s.stop()

    def do(self, a):
        if a["op"] == "fail":
            if a["scheme"] == "-":
                self.code = 0
                self.s.cmd("fail - 0")
            else:
                self.code = {"register": 7, "init": 11, "ts_init": 2, "run": 99,
                             "ts_final": 5, "final": 1}[a["phase"]]
                self.s.cmd(f"fail {a['scheme']}:{a['phase']} {self.code}")
            return {"err": "ok", "ev": []}
        if a["op"] == "setn":
            self.s.cmd(f"setn {a['v']}")
            return {"err": "ok", "ev": []}
        if a["thread"] != self.thread:
            self.thread = a["thread"]
            self.s.cmd(f"thread {self.thread}")
        part = a["part"] if a["phase"] == "run" else "_"
        ev, vals, ans = self.s.cmd(f"{a['phase']} {a['suite']} {part}")
        code = int(ans.split()[0])
        # every event must be of the called phase
        evs = []
        for e in ev:
            c, _, ph = e.rpartition(":")
            evs.append(c if ph == a["phase"] else e)
        return {"code": code, "ev": evs, "failcode": self.code}


def matcher(full):
    def m(r, resp):
        r = json.loads(r)
        if "crash" in resp:
            return False
        if "code" not in resp:
            return resp == r
        code, ev = resp["code"], resp["ev"]
        if r["err"] == "illegal":
            return code != 0 and ev == []
        if r["err"] == "scheme":
            if not full:
                return code != 0
            return code == resp["failcode"] and ev == r["ev"]
        if full:
            return code == 0 and ev == r["ev"]
        return code == 0
    return m


def run_config(c, idx, cfg, full, failtags, badsuites, badparts, loopvals, budget, threads=(0,)):
    rng = random.Random(c.seed * 1000 + idx)
    name = f"cfg{idx}"
    d = os.path.join(c.tmp, name)
    p = project(d, cfg, rng, host=rng.choice(["vhost", "hm"]))
    rc, out = p.generate()
    detail = {"config": cfg}
    if rc != 0:
        c.violation(f"{name}:generate", f"capgen rejects suite configuration {cfg}: {out[-800:]}", detail)
        return
    flags = ["-g", "-fcheck=all,no-recursion"]
    if len(threads) > 1:
        flags = ["-g", "-fcheck=bounds", "-fopenmp"]
    rc, out = p.compile(flags=flags)
    if rc != 0:
        c.violation(f"{name}:compile", f"generated caps do not compile: {out[-1500:]}", detail)
        return
    r = c.tlc("CapLifecycle", CFG, modules={"CapCfg": tla_cfg(cfg, failtags, badsuites, badparts, loopvals, threads)})
    lts = Lts(r.lines, [r.lines[0]["f"]])
    lts.walk(CapSut(p, full), c, name, rng=rng, max_steps=budget, restart_every=1500,
             timeout=240 if c.thorough else 40, match=matcher(full))
    if len(c.samples) < 3:
        c.samples.append({"suites": cfg["suites"], "entry": cfg["entry"]})
    shutil.rmtree(d, True)
    return r.distinct, r.states
