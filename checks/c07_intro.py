#!/usr/bin/env python3
"""C07: what the introspection routines of the caps report (CapIntro.tla)."""
from capintro import *
from lts import SutDied


def want_vars(a, key):
    i, o, s = key
    i, o, s = i != "f", o != "f", s != "f"
    r = set()
    if i:
        r |= set(a["xin" if s else "in"])
    if o:
        r |= set(a["xout" if s else "out"])
    return r


LEAK = "a variable which another suite uses with another intent in the same phase"


def elems(t, a, key):
    """The known extra variables."""
    r = set()
    if key[0] != "f" or key[1] != "f":
        for q in a["leak"]:
            r |= set(t["kids"]) if q == "tracer_array" and t["kids"] and key[2] != "f" else {q}
    return r


def judge(c, idx, t, fs):
    d = os.path.join(c.tmp, f"i{idx}")
    p = project(d, t)
    rc, out = fs.tool("ccpp_capgen.py", p.gen_cmd()[2:], d)
    c.traces += 1
    if rc == 0:
        rc, out = p.compile(flags=('-O0', '-fcheck=all,no-recursion'))
        if rc != 0:
            c.violation(f"c{idx}:compile", "the caps do not compile: " + out[:900], t)
            return
    else:
        # whether a configuration is accepted is decided elsewhere (C06)
        c.cov["not generated"] = c.cov.get("not generated", 0) + 1
        shutil.rmtree(d, True)
        if not t_own(t):
            c.violation(f"c{idx}:generate", "not generated: " + out[-600:], t)
        return
    s = Session(p.exe(), d).start()

    def ask(q):
        c.steps += 1
        try:
            ev, vals, ans = s.cmd(q)
        except SutDied as e:
            c.violation(f"c{idx}:{q}", f"'{q}' dies: {e}", t)
            return None, None
        code, _, rest = ans.partition("|")
        return code.strip(), [x for x in rest.split("|")[:-1]]

    def expect(q, code, want, seq=False, leak=()):
        k, got = ask(q)
        if k is None:
            return False
        g = got if seq else sorted(got)
        w = list(want) if seq else sorted(want)
        w = [x.lower() for x in w] if not seq else w
        if (k == "0") != (code == 0) or ([x.lower() for x in g] != [x.lower() for x in w]):
            if leak and k == "0" and set(g) == set(want) | set(leak):
                c.violation(LEAK, f"'{q}' returns {g}, expected {w}", t)
                return True
            c.violation(f"c{idx}:{q}", f"'{q}' returns {k} {g}, expected {'0' if code == 0 else 'an error'} {w}", t)
            return False
        return True
    ok = True
    # the list has no error code: errflg stays at what the driver set
    k, got = ask("suites")
    if k is not None and got != [a["name"] for a in t["answer"]]:
        c.violation(f"c{idx}:suites", f"suite list {got}", t)
        ok = False
    for a in t["answer"]:
        ok = ok and expect(f"parts {a['name']}", 0, a["parts"], seq=True)
        ok = ok and expect(f"schemes {a['name']}", 0, a["schemes"])
        for key in [x + y + z for x in "-tf" for y in "-tf" for z in "-tf"]:
            ok = ok and expect(f"q {a['name']} {key}", 0, want_vars(a, key), leak=elems(t, a, key))
    for bad in ["nosuch", "_", t["answer"][0]["name"][:-1], t["answer"][0]["name"] + "x"]:
        for q in (f"parts {bad}", f"schemes {bad}", f"q {bad} ---", f"q {bad} tft"):
            ok = ok and expect(q, 1, [])
    s.stop()
    if not os.environ.get("KEEP"):
        shutil.rmtree(d, True)
    if not c.samples:
        c.samples.append(t["answer"])


def check(c):
    ts = configs(c, 1200 if c.thorough else 96)

    def work(k):
        fs = ForkSrv(c)
        try:
            for i in range(k, len(ts), NCPU):
                judge(c, i, ts[i], fs)
        finally:
            fs.close()
    fork_map(c, work, list(range(NCPU)))
    c.cov["configurations"] = len(ts)


if __name__ == "__main__":
    main(check, "C07", assumptions=["run phase arguments are dimensioned by the loop extent",
                                    "variables of derived type are reported by their own standard name"])
