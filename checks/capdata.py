"""Shared by C03, C04 and C05: conformance of generated caps to CapData.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from lts import SutDied
from capgenlab import *
from datacfg import *

CFG = """INIT Init
NEXT Next
CONSTANT D = %d
INVARIANT TypeOK
INVARIANT Emit
PROPERTY OnlyInRange
PROPERTY InactiveUntouched
PROPERTY SuitesApart
PROPERTY DefinedStays
PROPERTY DefaultFirst
CHECK_DEADLOCK FALSE
"""
UNDEF = -2000000000
UN = {}
for f in FAMS:
    UN[f[0] + "|" + f[1]] = (f[2], f[3])
    UN[f[0] + "|" + f[4]] = (f[5], f[6])


class Replay:
    def __init__(self, cfg, proj):
        self.cfg, self.proj = cfg, proj
        self.r4 = {v.std for v in cfg.host.values() if v.ty == "r4"}
        self.args = {}
        for (c, p), args in cfg.entry.items():
            self.args[c, p] = {a.n: a for a in args}
            self.r4 |= {a.std for a in args if a.ty == "r4"}
        self.big = {}

    def tol(self, std, u, phys):
        m = self.big[std] = max(self.big.get(std, 1), max([abs(x) for x in phys if x != UNDEF] or [0]) + 100 + abs(UN[u][1]))
        if std.startswith("own") or std in self.cfg.host:
            return m * (4e-6 if std in self.r4 else 1e-9) / UN[u][0]

    def cmp(self, std, u, ty, want, got):
        """want: physical values; got: strings"""
        if len(want) != len(got):
            return f"{len(got)} values instead of {len(want)}"
        r, o = UN[u]
        t = self.tol(std, u, want)
        for w, g in zip(want, got):
            if w == UNDEF:
                continue
            if ty == "log":
                if g != ("T" if w else "F"):
                    return f"{got} instead of {want}"
            else:
                x = (w - o) / r
                try:
                    ok = abs(float(g) - x) <= t
                except ValueError:
                    ok = False
                if not ok:
                    return f"{got} instead of {[(y - o) / r for y in want]}"
        return None

    def setvals(self, s, std, phys):
        v = self.cfg.host[std]
        if v.dyn and not phys:
            s.cmd(f"set:{std} 0")
            return
        u = v.fam[0] + "|" + v.u
        r, o = UN[u]
        if v.flip:
            phys = self.flip(v, phys)
        vals = [repr((x - o) / r) if v.ty != "log" else str(x) for x in phys]
        s.cmd(f"set:{std} 1 " + " ".join(vals))

    def flip(self, v, phys):
        w = self.cfg.nc if v.cls in ("h", "hv", "hi") else 1
        rows = [phys[i:i + w] for i in range(0, len(phys), w)]
        return [x for r in reversed(rows) for x in r]

    def check_dump(self, s, h):
        ev, vals, _ = s.cmd("dump")
        got = {}
        for v in vals:
            if v[0] == "host":
                got[v[1]] = v[2:]
        for std, phys in h.items():
            v = self.cfg.host[std]
            if v.dyn and not phys:
                if got.get(std) != ["absent"]:
                    return f"host variable {std} was allocated"
                continue
            if v.flip:
                phys = self.flip(v, phys)
            m = self.cmp(std, v.fam[0] + "|" + v.u, v.ty, phys, got.get(std, []))
            if m:
                return f"host variable {std} ({v.u}) holds {m}"
        return None

    def behaviour(self, c, trace):
        s = Session(self.proj.exe(), self.proj.d, timeout=15).start()
        n = 0
        self.big = {}
        try:
            for st in trace:
                n += 1
                a = st["a"]
                m = None
                if a["op"] == "start":
                    for std, phys in st["h"].items():
                        self.setvals(s, std, phys)
                elif a["op"] == "cols":
                    s.cmd(f"cols {a['b']} {a['e']}")
                elif a["op"] == "flag":
                    for std, phys in st["h"].items():
                        if std == a["f"]:
                            self.setvals(s, std, phys)
                    for std, phys in st["h"].items():
                        if self.cfg.host[std].dyn and bool(phys) != bool(prev[std]):
                            self.setvals(s, std, phys)
                elif a["op"] == "set":
                    self.setvals(s, a["std"], st["h"][a["std"]])
                else:
                    m = self.call(s, a, st["ev"])
                prev = st["h"]
                if m is None:
                    m = self.check_dump(s, st["h"])
                c.steps += 1
                if m:
                    return n, m, s.hist
            return None
        except SutDied as e:
            return n, f"the program died: {e}", s.hist
        finally:
            s.stop()

    def call(self, s, a, ev):
        part = a["p"] if a["ph"] == "run" else "_"
        gev, vals, ans = s.cmd(f"{a['ph']} {a['s']} {part}")
        if not ans.startswith("0 "):
            return f"{a['ph']} of {a['s']} {part} returned {ans}"
        ph = a["ph"]
        names = [e["c"] + ":" + ph for e in ev]
        gnames = [e for e in gev if not e.endswith(" present")]
        if names != gnames:
            return f"called {gnames} instead of {names}"
        # what each call reported: calls and values come in order
        present = [e.split() for e in gev if e.endswith(" present")]
        q = list(vals)
        for e in ev:
            tag = e["c"] + ":" + ph
            exp = []
            for x in e["args"]:
                arg = self.args[e["c"], ph][x["n"]]
                exp.append((arg, x))
            # the scheme reports arguments in its own order
            byname = {x["n"]: (arg, x) for arg, x in exp}
            todo = set()
            for arg, x in exp:
                if x["k"] == "size" and arg.cls == "s":
                    if arg.opt:
                        w = [tag, x["n"], "present"]
                        if w not in present:
                            return f"{tag}: optional output {x['n']} ({arg.std}) absent"
                        present.remove(w)
                    continue
                todo.add(x["n"])
            while todo:
                if not q:
                    return f"{tag} did not report {todo}"
                g = q.pop(0)
                if g[0] != tag or g[1] not in todo:
                    return f"unexpected report {g} of {tag}"
                todo.discard(g[1])
                arg, x = byname[g[1]]
                desc = f"{tag} argument {g[1]} ({arg.std}, {arg.u}, {arg.int})"
                if x["k"] == "absent":
                    if g[2:] != ["absent"]:
                        return f"{desc} is present"
                elif g[2:] == ["absent"]:
                    return f"{desc} is absent"
                elif x["k"] == "size":
                    if g[2:] != [str(x["v"][0])]:
                        return f"{desc} has size {g[2:]} instead of {x['v']}"
                else:
                    m = self.cmp(arg.std, x["u"], arg.ty, x["v"], g[2:])
                    if m:
                        return f"{desc} received {m}"
        if q:
            return f"unexpected reports {q[:3]}"
        if present:
            return f"unexpected presence {present}"
        return None


def describe(cfg):
    return {"suites": cfg.suites,
            "host": {v.std: {k: x for k, x in v.__dict__.items() if k not in ("fam", "std")} for v in cfg.host.values()},
            "entry": {f"{c}:{p}": [x.__dict__ for x in a] for (c, p), a in cfg.entry.items()}}


def dyn_scenario():
    """One conditionally allocated host array passed to an optional argument"""
    fam = FAMS[-1]
    host = {"number_of_air_0": Q(std="number_of_air_0", fam=fam, cls="h", ty="r8", u="1", flip=False, cond=("is", "flag_one"),
                                 dyn=True, init=3, step=2, name="hx", where="mod"),
            "flag_one": Q(std="flag_one", fam=fam, cls="s", ty="log", u="1", flip=False, cond=(), dyn=False, init=1,
                          step=1, name="hflag", where="mod")}
    entry = {("alpha", "run"): [Q(n="x", std="number_of_air_0", u="1", cls="h", flip=False, int="inout", opt=True, k=3,
                                  ty="r8", vcls="h", vflip=False)]}
    return Q(nc=4, nl=3, host=host, flags={"flag_one": [0, 1]}, entry=entry, pool=["alpha"], use=["alpha"],
             suites=[{"name": "s", "groups": [{"name": "g1", "items": ["alpha"]}]}])


def run_data(c, idx, cfg, rng, ntraces, depth, debug=False, bounds=False):
    name = "conditionally allocated array, bounds checked" if bounds else f"d{idx}"
    d = os.path.join(c.tmp, name.split(",")[0].replace(" ", "_"))
    p = project(d, cfg, rng)
    det = describe(cfg)
    rc, out = p.generate(extra=["--debug"] if debug else [])
    if rc != 0:
        c.violation(f"{name}:generate", f"capgen rejects a consistent configuration: {out[-700:]}", det)
        return
    # the host cap forms sections of arrays which are not allocated while
    # inactive (known finding of C04), which the bounds check refuses
    dyn = any(v.dyn for v in cfg.host.values())
    rc, out = p.compile(flags=["-g", "-fcheck=all,no-recursion,no-bounds" if dyn and not bounds else "-fcheck=all,no-recursion"])
    if rc != 0:
        c.violation(f"{name}:compile", f"generated caps do not compile: {out[-1200:]}", det)
        return
    r = c.tlc("CapData", CFG % depth, modules={"CapDataCfg": tla_module(cfg)}, simulate=ntraces, depth=depth + 5,
              seed=c.seed * 7919 + idx)
    rp = Replay(cfg, p)
    for k, t in enumerate(r.lines):
        c.traces += 1
        bad = rp.behaviour(c, t)
        if bad:
            n, m, hist = bad
            if bounds and "array 'hx' outside of expected range (0:0)" in m and \
                    "__vhost_ccpp_cap_MOD_vhost_ccpp_physics_" in m:
                k = "section of an array which is not allocated"
            c.violation(f"{name}:{k}", f"step {n}: {m}", {"config": det, "history": hist[-40:]})
            break
    if len(c.samples) < 3:
        c.samples.append(det)
    shutil.rmtree(d, True)
    return r.distinct, r.states


def run_many(c, n, mix, ntraces, depth):
    jobs = list(range(n))

    def one(i):
        rng = random.Random(c.seed * 104729 + i)
        focus = mix[i % len(mix)]
        cfg = rand_data(rng, focus)
        return run_data(c, i, cfg, rng, ntraces, depth, debug=rng.random() < 0.25)
    for r in fork_map(c, one, jobs):
        if r:
            c.states += r[0]
            c.transitions += r[1]
    c.cov["configurations"] = n
