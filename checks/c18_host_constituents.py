#!/usr/bin/env python3
"""C18: the host's view of constituents in generated models (CapConst.tla)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from constlab import *
from lts import SutDied

INVS = ["MetaThere", "DynThere", "HostWins", "NothingElse", "RunOnlyWithData", "UnusedZero", "Fresh", "Emit"]
CFG = """INIT Init
NEXT Next
CONSTANT Seeds = {%s}
CONSTANT Depth = %d
""" + "".join(f"INVARIANT {i}\n" for i in INVS) + "CHECK_DEADLOCK FALSE\n"
U = 1000000000
NCOL, NLEV = 4, 2
FLAGS = ("-g", "-fcheck=all,no-recursion", "-fsanitize=address")


def num(x):
    m = re.match(r"^(-?[\d.]+)([+-]\d{3})$", x)
    return float(m.group(1) + "E" + m.group(2) if m else x)


def same(want, got):
    if len(want) != len(got):
        return False
    for w, g in zip(want, got):
        g = num(g)
        if w == U:
            if g < 1e300:
                return False
        elif g != w:
            return False
    return True


def show(q):
    return ["unset" if x == U else x for x in q]


class Rep:
    def __init__(self, s, conf):
        self.s, self.conf = s, conf
        self.ix = {}          # name -> index, as told by the generated cap

    def err(self, ans):
        return ans.split()[0]

    def code(self, ans, err):
        r = self.err(ans)
        if err and r in ("0", "-99"):
            return f"no error ({ans})"
        if not err and r != "0":
            return f"error {ans}"
        return None

    def step(self, op, exp):
        c, s = op["c"], self.s
        if c == "sel":
            s.cmd(f"sel {op['j']} {op['a']}")
        elif c == "register":
            return self.code(s.cmd(f"register {op['s']}")[2], exp["err"])
        elif c == "regc":
            q = op["q"]
            lst = ",".join(str(x) for x in [len(q)] + q) if q else "-"
            return self.code(s.cmd(f"regc {'same' if op['same'] else 'new'} {lst}")[2], exp["err"])
        elif c == "initc":
            return self.code(s.cmd(f"initc {NCOL} {NLEV}")[2], exp["err"])
        elif c in ("init", "ts_init", "ts_final", "final", "run"):
            return self.call(op, exp)
        elif c == "dealloc":
            s.cmd("dealloc")
        elif c == "numc":
            ev, v, ans = s.cmd(f"numc {op['w']}")
            m = self.code(ans, exp["err"])
            if not m and not exp["err"] and v != [["num", str(exp["v"])]]:
                m = f"{v} constituents instead of {exp['v']}"
            return m
        elif c == "isc":
            ev, v, ans = s.cmd(f"isc {op['x']}")
            return self.code(ans, False) or (None if v == [["isc", "T" if exp["v"] else "F"]] else f"{op['x']}: {v}")
        elif c == "idx":
            ev, v, ans = s.cmd(f"idx {op['x']}")
            if exp["err"]:
                return self.code(ans, True)
            i = int(v[0][1])
            if (i >= 1) != exp["found"]:
                return f"index of {op['x']} is {i}"
            if exp["found"]:
                self.ix[op["x"]] = i
        elif c == "ptrs":
            return self.ptrs(exp)
        elif c == "gather":
            ev, v, ans = s.cmd(f"gather {op['m']}")
            m = self.code(ans, exp["err"])
            if m or not exp["q"]:
                return m
            return self.fields("gathered", v[0][1:][:len(exp["q"]) * NCOL * NLEV], exp["q"])
        elif c == "update":
            m = self.learn([x["x"] for x in op["q"]])
            if m:
                return m
            for x in op["q"]:
                s.cmd(f"ub {self.ix[x['x']]} {x['b']}")
            return self.code(s.cmd(f"update {op['m']}")[2], False)
        elif c == "hostv":
            ev, v, ans = s.cmd("dump")
            if len(v) != len(exp["q"]) or not all(same(w, g[2:]) for w, g in zip(exp["q"], v)):
                return f"host variables are {v} instead of {exp['q']}"
        elif c == "hostc":
            ev, v, ans = s.cmd("hostc")
            w = []
            for d in exp["q"]:
                w += [["h", "name", f"[{d['n']}]"], ["h", "units"] + f"[{d['u']}]".split()]
            if v != w:
                return f"the host's own constituents became {v} instead of {w}"
        return None

    def learn(self, names):
        """index of every name; all different"""
        for x in names:
            if x not in self.ix:
                ev, v, ans = self.s.cmd(f"idx {x}")
                if self.err(ans) != "0" or not 1 <= int(v[0][1]) <= len(names):
                    return f"index of {x}: {v} {ans} with {len(names)} constituents"
                self.ix[x] = int(v[0][1])
        q = [self.ix[x] for x in names]
        return None if sorted(q) == list(range(1, len(names) + 1)) else f"indices {dict(zip(names, q))}"

    def fields(self, what, flat, q):
        m = self.learn([x["d"]["n"] for x in q])
        if m:
            return m
        k = NCOL * NLEV
        if len(flat) != k * len(q):
            return f"{what}: {len(flat)} values for {len(q)} constituents"
        for x in q:
            i = self.ix[x["d"]["n"]]
            if not same(x["v"], flat[(i - 1) * k:i * k]):
                return f"{what} {x['d']['n']} (index {i}) holds {flat[(i - 1) * k:i * k]} instead of {show(x['v'])}"
        return None

    def ptrs(self, exp):
        ev, v, ans = self.s.cmd("ptrs")
        full = [x[1:] for x in v if x[0] == "full"]
        adv = [x[1:] for x in v if x[0] == "adv"]
        props = [x[1:] for x in v if x[0] == "p"]
        if exp["st"] != "data" and (full and full[0] or adv and adv[0]):
            return f"constituent data although not initialized: {v}"
        if exp["st"] not in ("props", "data"):
            return f"properties although not registered: {props}" if props else None
        q = exp["q"]
        n = len(q)
        P, cur = [], None
        for x in props:
            if x[0] == "name":
                cur = {"name": x[1][1:-1]}
                P.append(cur)
            else:
                cur[x[0]] = " ".join(x[1:])
        if sorted(p["name"] for p in P) != sorted(x["d"]["n"] for x in q):
            return f"properties of {[p['name'] for p in P]} instead of {[x['d']['n'] for x in q]}"
        byn = {x["d"]["n"]: x["d"] for x in q}
        na = sum(x["d"]["adv"] for x in q)
        for i, p in enumerate(P):
            d = byn[p["name"]]
            want = {"name": d["n"], "units": f"[{d['u']}]", "long": f"[{LNAME}{d['n']}]", "adv": "T" if d["adv"] else "F",
                    "idx": str(i + 1), "hasdef": "T" if d["def"] >= 0 else "F"}
            got = dict(p)
            df = got.pop("def", None)
            if got != want or (d["def"] >= 0 and num(df) != d["def"]):
                return f"properties {p} instead of {want} (default {d['def']})"
            if (i < na) != d["adv"]:
                return f"{d['n']} has index {i + 1} with {na} advected constituents"
            self.ix[d["n"]] = i + 1
        m = self.learn([x["d"]["n"] for x in q])
        if m:
            return m
        if exp["st"] == "data":
            m = self.fields("array", full[0] if full else [], q)
            if m:
                return m
            k = NCOL * NLEV
            if (adv[0] if adv else []) != (full[0] if full else [])[:na * k]:
                return f"advected array {adv} is not the first {na} of {full}"
        return None

    def call(self, op, exp):
        c, s = op["c"], self.s
        if c == "run":
            s.cmd(f"cols {op['a']} {op['b']}")
            ev, vals, ans = s.cmd(f"run {op['s']} phys{op['g']}")
        else:
            s.cmd(f"cols 1 {NCOL}")
            ev, vals, ans = s.cmd(f"{c} {op['s']}")
        m = self.code(ans, False)
        if m:
            return m
        names = [f"{x['s']}:{c}" for x in exp["log"]]
        if ev != names:
            return f"called {ev} instead of {names}"
        i = 0
        for x in exp["log"]:
            for a in x["l"]:
                if i >= len(vals):
                    return f"{x['s']} logged too little"
                v = vals[i]
                i += 1
                if v[0] != f"{x['s']}:{c}":
                    return f"{v} instead of an argument of {x['s']}"
                if a["k"] == "all":
                    q = [{"d": {"n": y["x"]}, "v": y["v"]} for y in a["v"]]
                    m = self.learn([y["x"] for y in a["v"]])
                    if m:
                        return m
                    k = len(a["v"][0]["v"]) if a["v"] else 0
                    want = [0] * (k * len(q))
                    for y in a["v"]:
                        j = self.ix[y["x"]] - 1
                        want[j * k:(j + 1) * k] = y["v"]
                else:
                    want = a["v"]
                if not same(want, v[2:]):
                    return f"{x['s']} got {v[1]} ({a['k']} {a['x']}) = {v[2:]} instead of {show(want)}"
        return None if i == len(vals) else f"more arguments than expected: {vals[i:]}"


def project(c, item):
    i, behs = item
    conf = behs[0]["cf"]
    seed = conf["seed"]
    d = os.path.join(c.tmp, f"p{seed}")
    p = ConstProject(d, conf, NCOL, NLEV)
    p.write()
    rc, o = p.generate()
    if rc != 0:
        c.violation(f"seed{seed}:gen", f"the generator rejected the project: {o[-800:]}", conf)
        return
    rc, o = p.compile(flags=FLAGS)
    if rc != 0:
        c.violation(f"seed{seed}:compile", o[:1500], conf)
        return
    c.cov["projects"] = c.cov.get("projects", 0) + 1
    for b, beh in enumerate(behs):
        s = Session(p.exe(), d, timeout=20)
        s.start()
        r = Rep(s, conf)
        n = 0
        try:
            for st in beh["hist"]:
                n += 1
                op, exp = st["op"], st["exp"]
                if op["c"] in ("regc", "dealloc"):
                    r.ix = {}
                m = r.step(op, exp)
                c.steps += 1
                k = "op_" + op["c"] + ("_err" if exp.get("err") else "")
                c.cov[k] = c.cov.get(k, 0) + 1
                if m:
                    c.violation(f"seed{seed}:{b}:{n}", f"{op}: {m}", dict(conf=conf, hist=s.hist))
                    break
        except (SutDied, ValueError, KeyError, IndexError) as e:
            c.violation(f"seed{seed}:{b}:{n}", f"{beh['hist'][n - 1]['op']}: {type(e).__name__} {e}", dict(conf=conf, hist=s.hist))
        finally:
            s.stop()
        c.traces += 1
    shutil.rmtree(d, True)


def check(c):
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
    k, num_b, depth = (64, 1600, 70) if c.thorough else (16, 160, 60)
    seeds = [(c.seed * 1000 + i) % 40000 for i in range(1, k + 1)]
    r = c.tlc("CapConst", CFG % (", ".join(map(str, seeds)), depth), simulate=num_b, depth=depth * 12 + 50, workers=1)
    by = {}
    for x in r.lines:
        by.setdefault(x["cf"]["seed"], []).append(x)
    c.cov["behaviours"] = len(r.lines)
    c.samples = [[h["op"] for h in x["hist"]][:12] for x in r.lines[:2]]
    items = list(enumerate(by[s] for s in sorted(by)))
    fork_map(c, lambda it: project(c, it), items)


if __name__ == "__main__":
    main(check, "C18", level="model-checked specification; generated behaviours replayed on the generated code",
         assumptions=["the host keeps its constituents while they are registered and registers them anew only when no suite is initialized",
                      "arguments of a scheme do not alias", "layer constituents"])
