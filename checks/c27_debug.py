#!/usr/bin/env python3
"""C27: size checks in caps generated with --debug (DebugSize.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from lts import SutDied
from capgenlab import *

CFG = """CONSTANT LEN = %d
INIT Init
NEXT Next
INVARIANT Emit
PROPERTY Detects
CHECK_DEADLOCK FALSE
"""
DIM = {"H": "horizontal_dimension", "V": "vertical_layer_dimension", "N": "number_of_things"}
KIND = {"real": "kind_phys", "character": "len=8"}
VAL = {"real": "1.5", "integer": "3", "logical": ".true.", "character": "'ab'"}
FILL = {"real": "2.0", "integer": "4", "logical": ".false.", "character": "'cd'"}


def dims(d, run=False):
    return ["horizontal_loop_extent" if run and x == "H" else DIM[x] for x in d]


def project(d, t, rng):
    hv, ddt, cases = [], [], []
    for k, v in enumerate(t["arr"], 1):
        n, std, ty, ke = f"h{k}", f"quantity_{k}", v["ty"], v["keep"]
        kind, units = KIND.get(ty), "m" if v["cv"] else "none" if ty == "character" else "flag" if ty == "logical" else "1"
        pr = {}
        if v["act"]:
            pr["active"] = f"(flag_of_choice_{v['act']})"
        if ke == "alloc":
            pr["allocatable"] = "True"
        r = len(v["d"])
        base = A(n, std, units, dims(v["d"]), ty, kind).ftypedecl()
        md, new = tuple(dims(v["d"])), "{0}({1})"
        if ke == "section":
            pos = rng.randint(0, r)
            lst = lambda x, y: ",".join(x[:pos] + [y] + x[pos:])
            name = f"{n}({lst([':'] * r, 'index_of_thing')})"
            decl = f"{base}, allocatable, target :: {n}({lst([':'] * r, ':')})"
            hv.append(HostVar(n, std + "_all", units, lst(list(md), "number_of_slices").split(","), ty, kind, decl=decl, log=False))
            hv.append(HostVar(name, std, units, md, ty, kind, decl="", log=False, **pr))
            shape = lst([f"ve({i})" for i in range(1, r + 1)], "2")
            expr = n
        else:
            tgt = ", target" if ke != "ddt" and rng.random() < 0.5 else ""
            decl = f"{base}, allocatable{tgt} :: {n}({','.join(':' * r)})"
            x = HostVar(n, std, units, md, ty, kind, decl=decl, log=False, **pr)
            (ddt if ke == "ddt" else hv).append(x)
            expr = ("vd%" if ke == "ddt" else "") + n
            shape = ",".join(f"ve({i})" for i in range(1, r + 1))
        cases += [f"    case ('ext{k}')", f"      read(line,*) ve(1:{r})",
                  f"      if (allocated({expr})) deallocate({expr})", f"      allocate({expr}({shape}))",
                  f"      {expr} = {FILL[ty]}", "      write(*,'(a)') '=>ok'"]
    for f in (1, 2):
        hv.append(HostVar(f"choice{f}", f"flag_of_choice_{f}", "flag", (), "logical", None, log=False, decl=f"logical :: choice{f} = .true."))
        cases += [f"    case ('flag{f}')", f"      read(line,*) choice{f}", "      write(*,'(a)') '=>ok'"]
    cases += ["    case ('n')", "      read(line,*) nthings", "      write(*,'(a)') '=>ok'"]
    hv = [HostVar("nthings", "number_of_things", "count", (), "integer", None, log=False, decl="integer :: nthings = 2\n  integer :: ve(4)"),
          HostVar("nslices", "number_of_slices", "count", (), "integer", None, log=False, decl="integer, parameter :: nslices = 2", protected="True"),
          HostVar("ixth", "index_of_thing", "index", (), "integer", None, log=False, decl="integer :: ixth = 1")] + hv
    phs, names = {}, {}
    for e in sorted(t["entry"], key=lambda e: (e["s"], e["p"])):
        al = []
        for i, g in enumerate(e["args"], 1):
            v = t["arr"][g["a"] - 1]
            ty, nm, pr, code = v["ty"], f"a{i}", {}, None
            if g["opt"]:
                pr["optional"] = "True"
            if g["int"] != "in":
                code = f"{nm} = {VAL[ty]}"
            if g["alloc"]:
                pr["allocatable"] = "True"
                ex = {"H": "4", "V": "3", "N": "vl_lim"}
                code = f"allocate({nm}({','.join(ex[x] for x in v['d'])}))\n{code}"
            units = ("cm" if g["cv"] else "m") if v["cv"] else "none" if ty == "character" else "flag" if ty == "logical" else "1"
            al.append(A(nm, f"quantity_{g['a']}", units, dims(v["d"], e["p"] == "run"), ty, KIND.get(ty), g["int"], code=code,
                        log=not g["alloc"] and "size", **pr))
        if any(g["alloc"] and "N" in t["arr"][g["a"] - 1]["d"] for g in e["args"]):
            al.append(A("vl_lim", "number_of_things", "count", (), "integer", None, "in", log=False))
        names[e["s"], e["p"]] = len(al)
        phs.setdefault(e["s"], {})[e["p"]] = al
    if t["sv"]:      # a suite variable the schemes hand to each other
        first = {}
        for s in sorted(phs):
            for p in phs[s]:
                if p in ("init", "run"):
                    phs[s][p].append(A("w", "handed_on_" + p, "1", dims("HV", p == "run"), intent="inout" if first.get(p) else "out",
                                       code="w = 1", log="size"))
                    first[p] = True
    schemes = [Scheme(f"sch{s}", phs[s]) for s in sorted(phs)]
    p = Project(d, [{"name": "s0", "groups": [{"name": "g0", "items": [s.name for s in schemes]}]}], schemes, hv,
                ncols=4, nlev=3, kinds=["kind_phys=REAL64"], driver_extra="\n".join(cases))
    if ddt:
        p.extra_meta = ("[ccpp-table-properties]\n  name = vt\n  type = ddt\n[ccpp-arg-table]\n  name = vt\n  type = ddt\n" +
                        "".join(v.meta(False) for v in ddt))
        p.extra_types = ("!> \\section arg_table_vt  Argument Table\n!! \\htmlinclude arg_table_vt.html\n!!\n  type vt\n" +
                         "".join("    " + v.decl + "\n" for v in ddt) + "  end type vt\n")
        hv.append(HostVar("vd", "instance_of_vt", "DDT", (), "vt", None, log=False, decl="type(vt), target :: vd"))
        p.hostvars = hv
    return p


def expected(t, h):
    """Events and values of a call."""
    ev, vals = [], []
    for x in h["called"]:
        tag = f"sch{x['s']}:{h['p']}"
        ev.append(tag)
        e = [e for e in t["entry"] if (e["s"], e["p"]) == (x["s"], h["p"])][0]
        for i, n in enumerate(x["sizes"], 1):
            if n != -2:
                vals.append([tag, f"a{i}", "absent" if n == -1 else str(n)])
        if t["sv"] and h["p"] in ("init", "run"):
            vals.append([tag, "w", str(3 * (h["ncol"] if h["p"] == "run" else 4))])
    return ev, vals


def behaviour(c, idx, t, rng, fs):
    d = os.path.join(c.tmp, f"b{idx}")
    p = project(d, t, rng)
    p.write()
    rc, out = fs.tool("ccpp_capgen.py", p.gen_cmd(extra=["--debug"])[2:], d)
    c.traces += 1
    if rc != 0:
        c.violation(f"b{idx}:rejected", f"capgen --debug rejects a consistent configuration: {out[-700:]}", t)
        return 0, 0
    rc, out = p.compile()
    if rc != 0:
        c.violation(f"b{idx}:compile", f"caps generated with --debug do not compile: {out[-900:]}", t)
        return 0, 0
    s = Session(p.exe(), d, timeout=20).start()
    bad, nerr, ncall = None, 0, 0
    try:
        ext = lambda k, e: s.cmd(f"ext{k} " + " ".join(map(str, e)))
        for k, v in enumerate(t["arr"], 1):
            ext(k, [{"H": 4, "V": 3, "N": 2}[x] for x in v["d"]])
        for i, h in enumerate(t["hist"]):
            c.steps += 1
            op = h["op"]
            if op == "ext":
                ext(h["a"], h["e"])
            elif op in ("all", "nall"):
                if op == "nall":
                    s.cmd(f"n {h['n']}")
                for k, e in enumerate(h["e"], 1):
                    ext(k, e)
            elif op == "n":
                s.cmd(f"n {h['n']}")
            elif op == "flag":
                s.cmd(f"flag{h['f']} {'T' if h['v'] else 'F'}")
            elif op == "cols":
                s.cmd(f"cols {h['b']} {h['e']}")
            else:
                ncall += 1
                nerr += h["err"]
                ev, vals, ans = s.cmd(f"{h['p']} s0 " + ("g0" if h["p"] == "run" else "_"))
                xe, xv = expected(t, h)
                code = int(ans.split()[0])
                if (code != 0) != h["err"]:
                    bad = f"step {i}: {h['p']} answers {ans}, " + ("an array has another size than declared" if h["err"] else "all sizes are as declared")
                elif ev != xe:
                    bad = f"step {i}: {h['p']} calls {ev} instead of {xe} (error code {code})"
                elif h["err"] and ans.split(None, 1)[1:] in ([], ["[]"]):
                    bad = f"step {i}: {h['p']} reports a wrong size without a message"
                elif vals != xv:
                    bad = f"step {i}: {h['p']}: schemes see sizes {vals} instead of {xv}"
                if bad:
                    break
    except SutDied as e:
        bad = f"step {i}: the program ends: {e}"
    s.stop()
    if bad:
        c.violation(f"b{idx}", bad, {"behaviour": t, "session": s.hist[-30:]})
    if not bad or not os.environ.get("KEEP"):
        shutil.rmtree(d, True)
    return ncall, nerr


def check(c):
    n = 1600 if c.thorough else 160
    nw = NCPU
    rs = pmap(lambda k: c.tlc("DebugSize", CFG % (60 if c.thorough else 45), simulate=n // nw, depth=200, seed=c.seed * 1031 + k), list(range(nw)))
    ts = [t for r in rs for t in r.lines]
    if len(ts) < n * 0.8:
        raise HarnessError(f"only {len(ts)} behaviours")

    def work(k):
        fs = ForkSrv(c)
        cnt = {"calls": 0, "errors": 0}
        try:
            for i in range(k, len(ts), nw):
                a, b = behaviour(c, i, ts[i], random.Random(c.seed * 7919 + i), fs)
                cnt["calls"] += a
                cnt["errors"] += b
                if not c.samples:
                    c.samples.append(ts[i])
        finally:
            fs.close()
        c.cov["calls"] = cnt
    fork_map(c, work, list(range(nw)))


if __name__ == "__main__":
    main(check, "C27", assumptions=["the host hands over arrays that contain the declared section in the run phase",
                                    "sizes are compared as numbers of elements: extents that are wrong but multiply to the right size are not tried"])
