#!/usr/bin/env python3
"""C20: data and order of the calls of the static API (StaticData.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from predata import *
from lts import SutDied
from datacfg import FAMS

CFG = """INIT Init
NEXT Next
CONSTANT D = %d
INVARIANT TypeOK
INVARIANT Emit
PROPERTY OnlyInRange
PROPERTY InactiveUntouched
PROPERTY FailureStops
CHECK_DEADLOCK FALSE
"""
UNDEF = -2000000000
UN = {}
for f in FAMS:
    UN[f[0] + "|" + f[1]] = (f[2], f[3])
    UN[f[0] + "|" + f[4]] = (f[5], f[6])
CODE = 17


class Replay:
    def __init__(self, cfg, proj):
        self.cfg, self.proj = cfg, proj
        self.args = {k: {a.n: a for a in args} for k, args in cfg.entry.items()}
        self.big = {}

    def cmp(self, std, u, ty, want, got, dump=False):
        if len(want) != len(got):
            return f"{len(got)} values instead of {len(want)}"
        r, o = UN[u]
        m = self.big[std] = max(self.big.get(std, 1), max([abs(x) for x in want if x != UNDEF] or [0]) + 100 + abs(o))
        tol = m * (4e-6 if self.cfg.host[std].ty == "r4" else 1e-9) / r
        for w, g in zip(want, got):
            if w == UNDEF:
                continue
            if ty == "log":
                ok = float(g) == w if dump else g == ("T" if w else "F")
            else:
                try:
                    ok = abs(float(g) - (w - o) / r) <= tol
                except ValueError:
                    ok = False
            if not ok:
                return f"{got} instead of {[(y - o) / r if y != UNDEF else '?' for y in want]}"
        return None

    def setvals(self, s, std, copies):
        v = self.cfg.host[std]
        r, o = UN[v.fam[0] + "|" + v.u]
        n = len(self.cfg.insts) if v.where == "inst" else self.cfg.nt if v.where == "thr" else 1
        if v.dyn and not copies:
            for k in range(n):
                s.cmd(f"set:{std} {k + 1} -")
            return
        for k, phys in enumerate(copies):
            s.cmd(f"set:{std} {k + 1} " + " ".join(repr((x - o) / r) if v.ty != "log" else str(x) for x in phys))

    def check_dump(self, s, h):
        ev, vals, _ = s.cmd("dump")
        got = {}
        for v in vals:
            if v[0] == "host":
                got[v[1]] = v[2:]
        for std, copies in h.items():
            v = self.cfg.host[std]
            if v.dyn and not copies:
                if got.get(std + "#1") != ["absent"]:
                    return f"host variable {std} was allocated"
                continue
            for k, phys in enumerate(copies):
                m = self.cmp(std, v.fam[0] + "|" + v.u, v.ty, phys, got.get(f"{std}#{k + 1}", []), True)
                if m:
                    return f"host variable {std} ({v.u}, copy {k + 1}, {v.keep}) holds {m}"
        return None

    def behaviour(self, c, trace):
        s = Session(self.proj.exe(), self.proj.d, timeout=15).start()
        n = 0
        self.big = {}
        self.inst = self.cfg.insts[0]
        for i in self.cfg.insts:
            s.cmd(f"thrd {i} 1 {self.cfg.nt}")
        try:
            for st in trace:
                n += 1
                a = st["a"]
                m = None
                if a["op"] == "start":
                    for std, v in st["h"].items():
                        self.setvals(s, std, v)
                elif a["op"] == "cx":
                    self.inst = self.cfg.insts[a["inst"] - 1]
                    s.cmd(f"blk {self.inst} {a['blk']}")
                    s.cmd(f"thrd {self.inst} {a['thr']} {self.cfg.nt}")
                    self.inst_blk = a
                elif a["op"] == "fail":
                    s.cmd(f"fail {a['c']}:{a['ph']} {CODE}")
                elif a["op"] == "flag":
                    self.setvals(s, a["f"], st["h"][a["f"]])
                    for std, v in st["h"].items():
                        if self.cfg.host[std].dyn and bool(v) != bool(prev[std]):
                            self.setvals(s, std, v)
                elif a["op"] == "set":
                    self.setvals(s, a["std"], st["h"][a["std"]])
                else:
                    m = self.call(s, a, st["ev"])
                prev = st["h"]
                if m is None:
                    m = self.check_dump(s, st["h"])
                c.steps += 1
                if m:
                    return n, m, s.hist
            return None
        except SutDied as e:
            return n, f"the program died: {e}", s.hist
        finally:
            s.stop()

    def call(self, s, a, ev):
        ph = a["ph"]
        gev, vals, ans = s.cmd(f"{ph} {a['s']} {a['g']} {self.inst}")
        want = CODE if a["bad"] else 0
        if ans.split()[:2] != [str(want)] * 2:
            return f"{ph} of {a['s']} {a['g']} returned {ans} instead of {want}"
        names = [e["c"] + ":" + ph for e in ev]
        gnames = [e for e in gev if not e.endswith(" present")]
        if names != gnames:
            return f"called {gnames} instead of {names}"
        present = [e.split() for e in gev if e.endswith(" present")]
        q = list(vals)
        for e in ev:
            tag = e["c"] + ":" + ph
            byname = {x["n"]: (self.args[e["c"], ph][x["n"]], x) for x in e["args"]}
            todo = set()
            for arg, x in byname.values():
                if x["k"] == "size" and arg.cls == "s":
                    if arg.opt:
                        w = [tag, x["n"], "present"]
                        if w not in present:
                            return f"{tag}: optional output {x['n']} ({arg.std}) absent"
                        present.remove(w)
                    continue
                todo.add(x["n"])
            while todo:
                if not q:
                    return f"{tag} did not report {todo}"
                g = q.pop(0)
                if g[0] != tag or g[1] not in todo:
                    return f"unexpected report {g} of {tag}"
                todo.discard(g[1])
                arg, x = byname[g[1]]
                desc = f"{tag} argument {g[1]} ({arg.std} {arg.sp}, {arg.u}, {arg.int})"
                if x["k"] == "absent":
                    if g[2:] != ["absent"]:
                        return f"{desc} is present"
                elif g[2:] == ["absent"]:
                    return f"{desc} is absent"
                elif x["k"] in ("size", "int"):
                    if g[2:] != [str(x["v"][0])]:
                        return f"{desc} has {g[2:]} instead of {x['v']}"
                else:
                    m = self.cmp(arg.std, x["u"], arg.ty, x["v"], g[2:])
                    if m:
                        return f"{desc} received {m}"
        if q:
            return f"unexpected reports {q[:3]}"
        if present:
            return f"unexpected presence {present}"
        return None


def describe(cfg):
    return {"mode": cfg.mode, "suites": cfg.suites, "blocks": cfg.blocks,
            "host": {v.std: {k: x for k, x in v.__dict__.items() if k not in ("fam", "std")} for v in cfg.host.values()},
            "entry": {f"{c}:{p}": [x.__dict__ for x in a] for (c, p), a in cfg.entry.items()}}


def check(c):
    n = 160 if c.thorough else 40

    def one(i):
        rng = random.Random(c.seed * 7577 + i)
        cfg = rand_conf(rng, ["blocked", "chunked", "plain", "blocked"][i % 4])
        name = f"{cfg.mode}{i}"
        d = os.path.join(c.tmp, name)
        det = describe(cfg)
        p = project(d, cfg, rng)
        dbg = rng.random() < 0.3
        rc, out = p.generate(extra=["--debug"] if dbg else [])
        if rc != 0:
            c.violation(f"{name}:generate", f"prebuild rejects a consistent configuration: {out[-900:]}", det)
            return
        rc, out = p.compile()
        if rc != 0:
            c.violation(f"{name}:compile", f"generated caps do not compile: {out[-1200:]}", det)
            return
        r = c.tlc("StaticData", CFG % (22 if c.thorough else 16), modules={"StaticDataCfg": module_of(cfg)},
                  simulate=60 if c.thorough else 16, depth=30, seed=c.seed * 7919 + i)
        rp = Replay(cfg, p)
        for k, t in enumerate(r.lines):
            c.traces += 1
            bad = rp.behaviour(c, t)
            if bad:
                c.violation(f"{name}:{k}", f"step {bad[0]}: {bad[1]}", {"config": det, "history": bad[2][-40:]})
                break
        if len(c.samples) < 3:
            c.samples.append(det)
        shutil.rmtree(d, True)
        return r.distinct, r.states
    for r in fork_map(c, one, list(range(n))):
        if r:
            c.states += r[0]
            c.transitions += r[1]
    c.cov["configurations"] = n


if __name__ == "__main__":
    main(check, "C20", assumptions=["schemes do not alias their arguments",
                                    "arguments matched to conditionally active host variables are optional"])
