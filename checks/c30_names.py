#!/usr/bin/env python3
"""C30: which sets of named things capgen takes (CapNames.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from capgenlab import *

CFG = """INIT Init
NEXT Next
INVARIANT SameVerdict
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
FILES = {"h": ["ha_data", "zz_data", "state", "grid"], "s": ["one", "two", "three", "four"]}


def prop(l, std, ty="real", kind="kind_phys", units="1", intent=None):
    return (f"[ {l} ]\n  standard_name = {std}\n  units = {units}\n  dimensions = ()\n  type = {ty}\n" +
            (f"  kind = {kind}\n" if kind else "") + (f"  intent = {intent}\n" if intent else ""))


def err(**k):
    return prop("errmsg", "ccpp_error_message", "character", "len=512", "none", **k) + prop("errflg", "ccpp_error_code", "integer", "", "1", **k)


def head(n, ty, sect=None):
    return (f"[ccpp-table-properties]\n  name = {n}\n  type = {ty}\n" if sect is None else "") + \
        (f"[ccpp-arg-table]\n  name = {sect or n}\n  type = {ty}\n")


def mark(n):
    return f"!> \\section arg_table_{n}  Argument Table\n!! \\htmlinclude arg_table_{n}.html\n!!\n"


def write(d, t, rng):
    """The files of a configuration: host, scheme, suite files and sources."""
    os.makedirs(d)

    def w(n, s):
        with open(os.path.join(d, n), "w") as f:
            f.write(s)

    def module(n, vs, extra=""):
        return (f"module {n}\n  use ccpp_kinds\n  implicit none\n  public\n{mark(n)}" +
                "".join(f"  real(kind_phys) :: {l}\n" for l, _ in vs) + extra + f"end module {n}\n")
    base = ("  integer :: col_start, col_end\n  integer, parameter :: ncols = 4\n  character(len=512) :: errmsg\n  integer :: errflg\n")
    m = head("hh", "host") + prop("col_start", "horizontal_loop_begin", "integer", "", "count") + \
        prop("col_end", "horizontal_loop_end", "integer", "", "count") + prop("ncols", "horizontal_dimension", "integer", "", "count") + err()
    w("hh.meta", m)
    w("hh.F90", module("hh", (), base))
    hosts, schemes, suites = ["hh"], [], []
    for i, tabs in enumerate(t["hosts"]):
        fn = FILES["h"][i]
        m, f, ddts = "", "", []
        for tb in tabs:
            m += head(tb["n"], tb["k"]) + (f"  module = {fn}_{tb['n']}_m\n" if tb["k"] == "ddt" else "")
            m += "".join(prop(l, s) for l, s in tb["vs"])
            if tb["k"] == "ddt":
                f += (f"module {fn}_{tb['n']}_m\n  use ccpp_kinds\n  implicit none\n  private\n{mark(tb['n'])}  type, public :: {tb['n']}\n" +
                      "".join(f"    real(kind_phys) :: {l}\n" for l, _ in tb["vs"]) + f"  end type {tb['n']}\nend module {fn}_{tb['n']}_m\n")
            else:
                f += module(tb["n"], tb["vs"])
        w(fn + ".meta", m)
        w(fn + ".F90", f)
        hosts.append(fn)
    hosts = [hosts[0]] + hosts[1:] if rng.random() < 0.5 else hosts[1:] + hosts[:1]
    used = [s for tabs in t["hosts"] for tb in tabs if tb["k"] == "module" for _, s in tb["vs"]]
    for i, s in enumerate(t["schemes"]):
        fn = FILES["s"][i]
        n = s["n"]
        m = f"[ccpp-table-properties]\n  name = {n}\n  type = scheme\n"
        f = f"module {n}\n  use ccpp_kinds\n  implicit none\n  private\n" + "".join(f"  public :: {n}_{p}\n" for p in s["ph"]) + "contains\n"
        for p in s["ph"]:
            args = [(f"a{k}", x, rng.choice(["in", "inout"])) for k, x in enumerate(rng.sample(used, min(len(used), rng.randint(0, 2))))]
            args = [a for k, a in enumerate(args) if a[1].lower() not in [b[1].lower() for b in args[:k]]]
            m += head(n, "scheme", f"{n}_{p}") + f"  module = {n}\n" + "".join(prop(l, x, intent=it) for l, x, it in args) + err(intent="out")
            f += (mark(f"{n}_{p}") + f"  subroutine {n}_{p}(" + ", ".join([a[0] for a in args] + ["errmsg", "errflg"]) + ")\n" +
                  "".join(f"    real(kind_phys), intent({it}) :: {l}\n" for l, _, it in args) +
                  "    character(len=512), intent(out) :: errmsg\n    integer, intent(out) :: errflg\n    errmsg = ''\n    errflg = 0\n" +
                  f"  end subroutine {n}_{p}\n")
        w(fn + ".meta", m)
        w(fn + ".F90", f + f"end module {n}\n")
        schemes.append(fn)
    for i, u in enumerate(t["suites"]):
        fn = f"suite_{i}.xml"
        w(fn, f'<?xml version="1.0" encoding="UTF-8"?>\n<suite name="{u["n"]}" version="1.0">\n' +
          "".join(f'  <group name="{g}">\n' + "".join(f"    <scheme>{x}</scheme>\n" for x in it) + "  </group>\n" for g, it in u["gs"]) +
          "</suite>\n")
        suites.append(fn)
    return hosts, schemes, suites


def judge(c, idx, t, rng, fs):
    d = os.path.join(c.tmp, f"n{idx}")
    hosts, schemes, suites = write(d, t, rng)
    rc, out = fs.tool("ccpp_capgen.py", ["--host-files", ",".join(x + ".meta" for x in hosts), "--scheme-files",
                                         ",".join(x + ".meta" for x in schemes), "--suites", ",".join(suites), "--host-name", "hh",
                                         "--output-root", d + "/out", "--kind-type", "kind_phys=REAL64"], d)
    caps = glob.glob(d + "/out/*.F90") + glob.glob(d + "/out/*.xml")
    c.traces += 1
    c.steps += 1
    r = None
    if t["bad"]:
        last = out.split("Traceback")[-1].lower().replace(d.lower(), "")
        last = "\n".join(last.splitlines()[-4:])
        if rc == 0:
            r = ("accepted", f"takes a configuration in which names collide or are unknown: {t['bad']}")
        elif caps:
            r = ("caps", f"fails, but writes {[os.path.basename(x) for x in caps]}")
        elif not any(re.search(rf"\b{re.escape(x.lower())}(\b|_)", last) for x in t["bad"]):
            r = ("unnamed", f"does not name any of {t['bad']}: {out[-500:]}")
    elif rc != 0:
        r = ("rejected", f"rejects distinct names: {out[-700:]}")
    else:
        gen = sorted(glob.glob(d + "/out/**/*.F90", recursive=True))
        have = {os.path.basename(g) for g in gen}
        fw = [f"{REPO}/src/{x}" for x in ("ccpp_hashable.F90", "ccpp_hash_table.F90", "ccpp_constituent_prop_mod.F90") if x not in have]
        crc, o = gfortran(["-c", "-O0"] + order_files(fw + [f"{d}/{x}.F90" for x in hosts + schemes] + gen), d)
        if crc:
            r = ("compile", f"accepted, but the caps do not compile: {[l for l in o.splitlines() if 'Error' in l][:4]}")
        else:
            api = "".join(open(g).read() for g in gen if "_ccpp_cap" in g)
            for u in t["suites"]:
                if not re.search(rf"==\s*'{u['n']}'", api):
                    r = ("suite", f"suite {u['n']} is not known to the cap of the host")
                for g, _ in u["gs"]:
                    if not re.search(rf"==\s*'{g}'", api):
                        r = ("group", f"group {g} of suite {u['n']} is not known to the cap of the host")
    if r:
        c.violation(f"n{idx}:{r[0]}", r[1], t)
    if not r or not os.environ.get("KEEP"):
        shutil.rmtree(d, True)
    return "accepted" if rc == 0 else "rejected"


def check(c):
    n = 2400 if c.thorough else 320
    parts = list(range(NCPU))
    rs = pmap(lambda k: c.tlc("CapNames", CFG, simulate=n // NCPU, depth=200, seed=c.seed * 1013 + k), parts)
    ts = [t for r in rs for t in r.lines]
    if len(ts) < n * 0.8:
        raise HarnessError(f"only {len(ts)} configurations")

    def work(k):
        fs = ForkSrv(c)
        cnt = {"accepted": 0, "rejected": 0}
        try:
            for i in range(k, len(ts), NCPU):
                cnt[judge(c, i, ts[i], random.Random(c.seed * 7919 + i), fs)] += 1
                if not c.samples:
                    c.samples.append(ts[i])
        finally:
            fs.close()
        c.cov["verdicts"] = cnt
    fork_map(c, work, parts)
    c.cov["configurations"] = len(ts)
    c.cov["consistent"] = sum(1 for t in ts if not t["bad"])


if __name__ == "__main__":
    main(check, "C30", assumptions=["names of tables and schemes are written in lower case",
                                    "the module of a scheme has the name of its table"])
