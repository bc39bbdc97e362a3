#!/usr/bin/env python3
"""C23: the variable tracking tool (Track.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from preblab import *

CFG = """INIT Init
NEXT Next
INVARIANT Declared
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
CONFIG = """HOST_MODEL_IDENTIFIER = "H"
TYPEDEFS_NEW_METADATA = {'host_defs': {'host_defs': '', 'thing_type': 'thing_type'}}
VARIABLE_DEFINITION_FILES = ['host_defs.F90']
SCHEME_FILES = []
DEFAULT_BUILD_DIR = '.'
TYPEDEFS_MAKEFILE = TYPEDEFS_CMAKEFILE = TYPEDEFS_SOURCEFILE = '{build_dir}/t'
SCHEMES_MAKEFILE = SCHEMES_CMAKEFILE = SCHEMES_SOURCEFILE = '{build_dir}/s'
CAPS_MAKEFILE = CAPS_CMAKEFILE = CAPS_SOURCEFILE = '{build_dir}/c'
CAPS_DIR = SUITES_DIR = STATIC_API_DIR = '{build_dir}'
HTML_VARTABLE_FILE = LATEX_VARTABLE_FILE = '{build_dir}/v'
STATIC_API_CMAKEFILE = STATIC_API_SOURCEFILE = '{build_dir}/a'
"""
HOSTF = """module host_defs
!> \\section arg_table_thing_type Argument Table
!! \\htmlinclude thing_type.html
!!
  type thing_type
    integer :: n
  end type thing_type
!> \\section arg_table_host_defs Argument Table
!! \\htmlinclude host_defs.html
!!
end module host_defs
"""
HOSTM = """[ccpp-table-properties]
  name = thing_type
  type = ddt
[ccpp-arg-table]
  name = thing_type
  type = ddt
[n]
  standard_name = number_of_things
  units = count
  dimensions = ()
  type = integer
[ccpp-table-properties]
  name = host_defs
  type = module
[ccpp-arg-table]
  name = host_defs
  type = module
[thing_type]
  standard_name = thing_type
  units = DDT
  dimensions = ()
  type = thing_type
"""


def project(d, t, rng):
    os.makedirs(d)
    w = lambda f, s: open(os.path.join(d, f), "w").write(s)
    if t["flaw"] != "noconfig":
        w("trkconfig.py", CONFIG)
    w("host_defs.F90", HOSTF)
    w("host_defs.meta", HOSTM)
    # one or several schemes per metadata file
    order = sorted(t["tabs"])
    rng.shuffle(order)
    files = []
    for c in order:
        if files and rng.random() < 0.4:
            rng.choice(files).append(c)
        else:
            files.append([c])
    gone = rng.choice(sorted(t["used"]))
    nl = lambda: "\n" * rng.choice((0, 0, 1, 2))
    cm = lambda: rng.choice(("", "", "", "# a comment\n", "########\n", "!! text\n" if False else ""))
    mdir = os.path.join(d, "meta")
    os.makedirs(mdir)
    for k, cs in enumerate(files):
        s = cm() + nl()
        if rng.random() < 0.3:
            tn = "local_%d" % k
            s += f"[ccpp-table-properties]\n  name = {tn}\n  type = ddt\n" + nl() + f"[ccpp-arg-table]\n  name = {tn}\n  type = ddt\n"
            s += f"[ n ]\n  standard_name = {''.join(t['query'])}\n  units = 1\n  dimensions = ()\n  type = integer\n" \
                if t["query"][0].isalpha() else "[ n ]\n  standard_name = only_here\n  units = 1\n  dimensions = ()\n  type = integer\n"
        for c in cs:
            if t["flaw"] == "nometa" and c == gone:
                continue
            s += "[ccpp-table-properties]\n" + cm()
            if rng.random() < 0.3:
                s += f"  type = scheme | name = {c}\n"
            else:
                s += f"  name = {c}\n" + nl() + "  type = scheme\n"
            if rng.random() < 0.3:
                s += "  dependencies = other.F90, another.F90\n"
            s += cm() + nl()
            if rng.random() < 0.5:
                s += "#" * 40 + "\n"
            for x in t["tabs"][c]:
                s += f"[ccpp-arg-table]\n  name = {c}_{x['p']}\n  type = scheme\n" + nl()
                for k2, a in enumerate(x["args"]):
                    ty = rng.choice(("real", "real", "integer", "thing_type"))
                    pr = [f"standard_name = {''.join(a['n'])}", f"intent = {a['i']}", "units = 1",
                          "dimensions = " + rng.choice(("()", "(horizontal_loop_extent)", "(horizontal_loop_extent,vertical_layer_dimension)")),
                          f"type = {ty}"] + (["kind = kind_phys"] if ty == "real" else [])
                    rng.shuffle(pr)
                    if t["flaw"] == "badmeta" and c == gone:
                        pr[0] = "this is no property"
                    s += f"[ v{k2} ]\n" + "".join("  " + q + "\n" for q in pr) + cm()
                if t["flaw"] == "badmeta" and c == gone:
                    s += "  this is no property\n"
        open(os.path.join(mdir, "file_%d.meta" % k), "w").write(s)
    open(os.path.join(mdir, "readme.txt"), "w").write("[ccpp-table-properties]\n name = %s\n" % gone)
    s = '<?xml version="1.0" encoding="UTF-8"?>\n<suite name="trk" version="1">\n'
    for g, subs in enumerate(t["groups"], 1):
        s += f'  <group name="grp{g}">\n'
        for sub in subs:
            s += f'    <subcycle loop="{sub["loop"]}">\n' + "".join(f"      <scheme>{c}</scheme>\n" for c in sub["schemes"]) + "    </subcycle>\n"
        s += "  </group>\n"
    w("suite_trk.xml" if t["flaw"] != "nosuite" else "suite_other.xml", s + "</suite>\n")


def expected(t):
    if t["path"]:
        r, g = [], None
        for x in t["path"]:
            if x["g"] != g:
                g = x["g"]
                r.append(f"In group grp{g}")
            r.append(f"  {x['c']}_{x['p']} (intent {x['i']})")
        return r
    return [f"In {x['c']}_{x['p']} found variable(s) {[''.join(n) for n in x['names']]}" for x in t["near"]]


def judge(c, idx, t, rng, fs):
    d = os.path.join(c.tmp, f"t{idx}")
    project(d, t, rng)
    q = "".join(t["query"])
    argv = ["-s", "suite_trk.xml", "-m", rng.choice(("meta", "meta/", "./meta", os.path.join(d, "meta"))),
            "-c", "trkconfig.py", "-v", q] + (["--debug"] if rng.random() < 0.1 else [])
    rc, out = fs.tool("ccpp_track_variables.py", argv, d)
    c.traces += 1
    c.steps += 1
    r = None
    if t["flaw"]:
        if rc == 0:
            r = ("flaw", f"succeeds in spite of {t['flaw']}: {out[-500:]}")
    elif rc != 0:
        r = ("fails", f"variable {q}: exit status {rc}: {out[-800:]}")
    else:
        got = [l.rstrip() for l in out.splitlines() if re.match(r"In group grp|  \S+ \(intent|In \S+ found variable", l)]
        want = expected(t)
        head = f"For suite suite_trk.xml, the following schemes (in order for each group) use the variable {q}:"
        if got != want:
            k = next((i for i, (x, y) in enumerate(zip(got + [None], want + [None])) if x != y), 0)
            r = ("path", f"variable {q}: answer {k + 1} is {(got + [None])[k]!r}, the suite says {(want + [None])[k]!r}; reported {got}, expected {want}")
        elif t["path"] and head not in out:
            r = ("head", f"no heading for suite and variable: {out[-500:]}")
        elif not t["path"] and f"Variable {q} not found" not in out:
            r = ("silent", f"variable {q} is not used, but the tool does not say so: {out[-500:]}")
        elif t["path"] and re.search(r"not found|found variable\(s\)", out):
            r = ("noise", f"variable {q} is used, but reported as not found: {out[-500:]}")
    if r:
        c.violation(f"t{idx}:{r[0]}", r[1], t)
    c.cov[r and "wrong" or (t["flaw"] or ("used" if t["path"] else "near" if t["near"] else "none"))] = \
        c.cov.get(r and "wrong" or (t["flaw"] or ("used" if t["path"] else "near" if t["near"] else "none")), 0) + 1
    if not r or not os.environ.get("KEEP"):
        shutil.rmtree(d, True)


def check(c):
    n = 8000 if c.thorough else 1200
    nw = NCPU
    rs = pmap(lambda k: c.tlc("Track", CFG, simulate=n // nw, depth=600, seed=c.seed * 1013 + k), list(range(nw)))
    ts = [t for r in rs for t in r.lines]
    if len(ts) < n * 0.8:
        raise HarnessError(f"only {len(ts)} queries")

    def work(k):
        fs = ForkSrv(c)
        try:
            for i in range(k, len(ts), nw):
                judge(c, i, ts[i], random.Random(c.seed * 7919 + i), fs)
                if not c.samples:
                    c.samples.append(ts[i])
        finally:
            fs.close()
    fork_map(c, work, list(range(nw)))
    c.cov["queries"] = len(ts)


if __name__ == "__main__":
    main(check, "C23")
