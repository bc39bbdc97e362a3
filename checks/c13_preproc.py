#!/usr/bin/env python3
"""C13: preprocessor conditionals (Preproc.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

CFG = """INIT Init
NEXT Next
INVARIANT Sane
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
OPS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}


def cond(c, rng, top=0):
    """C text of a condition; top: binding strength of the context."""
    sp = lambda: rng.choice(("", " ", " ", "  "))
    o = c["op"]
    if o == "int":
        s, p = str(c["v"]), 9
    elif o == "name":
        s, p = c["n"], 9
    elif o == "def":
        s, p = rng.choice(("defined(%s)", "defined %s", "defined( %s )", "defined (%s)")) % c["n"], 9
    elif o == "not":
        s, p = "!" + rng.choice(("", "", " ")) + cond(c["a"][0], rng, 8), 8
    elif o in OPS:
        s, p = cond(c["a"][0], rng, 6) + sp() + OPS[o] + sp() + cond(c["a"][1], rng, 6), 5
    else:
        w, p = ("&&", 3) if o == "and" else ("||", 2)
        s = (sp() + w + sp()).join(cond(x, rng, p + (i > 0)) for i, x in enumerate(c["a"]))
    if p < top or rng.random() < 0.15:
        s = "(" + sp() + s + sp() + ")"
    return s


def source(f, m, rng):
    s = f"module {m}\ncontains\n"
    for n, l in enumerate(f["lines"], 1):
        k = l["k"]
        if k == "text":
            s += rng.choice((f"  subroutine l{n}()\n  end subroutine l{n}\n", f"subroutine l{n}\nend subroutine l{n}\n\n"))
            continue
        h = "#" + rng.choice(("", "", "", " ", "  "))
        if k in ("ifdef", "ifndef", "undef"):
            s += f"{h}{k} {l['n']}" + rng.choice(("", "", "  "))
        elif k == "define":
            s += f"{h}define {l['n']}" + (f" {l['v']}" if l["v"] >= 0 else "") + rng.choice(("", "", " "))
        elif k in ("if", "elif"):
            t = cond(l["c"], rng)
            s += h + k + (rng.choice(("", " ")) if t[0] == "(" else " ") + t
        elif k in ("ifjunk", "elifjunk"):
            s += h + k[:-4] + rng.choice((" (A", " A + ", " A B", " FOO(3)", " A & 3", " == 2"))
        else:
            s += h + k
        s += "\n"
        if rng.random() < 0.1:
            s += rng.choice(("! a comment\n", "\n", "  ! #endif\n", "!! #else\n"))
    return s + f"end module {m}\n"


def cpp(fn, cmd, fails):
    """What the installed preprocessor says (keeps the specification honest)."""
    p = subprocess.run(["gcc", "-E", "-P", "-traditional-cpp", "-undef", "-x", "c", fn] + [f"-D{n}" + (f"={v}" if v >= 0 else "") for n, v in cmd],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        return None
    return re.findall(r"^\s*subroutine (l\d+)", p.stdout, re.M)


def check(c):
    n = 24000 if c.thorough else 3200
    rs = pmap(lambda k: c.tlc("Preproc", CFG, simulate=n // NCPU, depth=100, seed=c.seed * 1013 + k), list(range(NCPU)))

    def work(k):
        fs = ForkSrv(c)
        d = os.path.join(c.tmp, f"p{k}")
        os.makedirs(d)
        try:
            for i, t in enumerate(rs[k].lines):
                rng = random.Random(c.seed * 7919 + k * 100003 + i)
                cmd = [(x, v) for x, v in sorted(t["cmd"].items()) if v > -2]
                rng.shuffle(cmd)
                fns = []
                for j, f in enumerate(t["files"]):
                    fns.append(os.path.join(d, f"m{i}_{j}.F90"))
                    open(fns[-1], "w").write(source(f, f"m{i}_{j}", rng))
                    if i % 3 == 0:
                        r = cpp(fns[-1], cmd, f["err"])
                        if (r is None) != (f["err"] != "") or (r is not None and r != [f"l{x}" for x in f["kept"]]):
                            raise HarnessError(f"the specification differs from cpp: {open(fns[-1]).read()} {cmd} {f} {r}")
                defs = [rng.choice(("", "-D")) + x + ("" if v < 0 else f"={v}") for x, v in cmd]
                defs = rng.choice((",", ", ")).join(defs)
                r = fs.op("routines", {"defs": defs, "files": fns}, ops="fortops.py")
                c.traces += 1
                if r["rc"] != 0 or r["val"] is None:
                    c.violation(f"p{k}:{i}", f"reading stops with {r['out'][-600:]}", t)
                    continue
                for f, fn, (err, got) in zip(t["files"], fns, r["val"]):
                    c.steps += len(f["lines"])
                    want = [f"l{x}" for x in f["kept"]]
                    if f["err"] and not err:
                        c.violation(f"p{k}:{i}:{f['err']}", f"unbalanced {f['err']} is not reported: definitions {defs!r}, source " + open(fn).read(), t)
                    elif f["err"] and not re.match(r"(CCPPError|ParseSyntaxError|ParseInternalError)", err):
                        c.violation(f"p{k}:{i}:{f['err']}", f"unbalanced {f['err']} is reported as {err}: source " + open(fn).read(), t)
                    elif not f["err"] and err:
                        c.violation(f"p{k}:{i}:error", f"a correct source is rejected ({err}): definitions {defs!r}, source " + open(fn).read(), t)
                    elif not f["err"] and got != want:
                        c.violation(f"p{k}:{i}:lines", f"definitions {defs!r}: keeps {got}, the preprocessor keeps {want}: source " + open(fn).read(), t)
                    os.unlink(fn)
                if not c.samples:
                    c.samples.append(t)
        finally:
            fs.close()
    fork_map(c, work, list(range(NCPU)))


if __name__ == "__main__":
    main(check, "C13", assumptions=["a macro that is compared with a number is defined with a number (the tool documents that a comparison with an undefined name is false)"])
