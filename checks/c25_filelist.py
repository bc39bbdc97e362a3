#!/usr/bin/env python3
"""C25: the files denoted by a list of pathnames (FileList.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

CFG = """INIT Init
NEXT Next
INVARIANT NoDup
INVARIANT Declared
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
NOISE = {"blank": "", "hash": "# m1.meta", "bang": "! it's a comment", "space": "   \t", "hashpath": "#m2.meta", "bangpath": "  !l1.txt"}


def j(n):
    return "".join(n)


def path(root, p):
    return os.path.join(root, *[j(x) for x in p])


def spell(root, e):
    s = "/".join(j(x) for x in e["path"]) or "."
    if e["abs"]:
        s = root + "/" + s
    return s + ("/" if e["slash"] else "")


def layout(t, root):
    """Write the tree; the entries of the command line as given."""
    for d in t["dirs"]:
        os.makedirs(path(root, d), exist_ok=True)
    for x in t["tree"]:
        for n in x["n"]:
            with open(path(root, x["d"] + [n]), "w") as f:
                f.write("garbage\n")
    for x in t["texts"]:
        with open(path(root, x["t"]), "w") as f:
            last = len(x["l"]) - 1
            for i, l in enumerate(x["l"]):
                s = spell(root, l["e"]) if l["k"] == "path" else NOISE[l["k"]]
                if l["k"] == "path":
                    s = ("", "", " ", "\t", "  ", "")[l["sp"]] + s + ("", "", "", " ", "  ", "\t")[l["sp"]]
                f.write(s + ("" if i == last and l["sp"] == 1 else "\r\n" if l["sp"] == 3 and l["k"] == "path" else "\n"))
    return [spell(root, e) for e in t["args"]["e"]]


def argument(t, es):
    sp = t["args"]["sp"]
    return (",", ", ", " ,  ", ",,")[sp].join(es) + ("", " ", ",", "")[sp]


def describe(t, root, es):
    return dict(entries=es, cwd=path("", t["args"]["base"]), suffixes=[j(s) for s in t["sufs"]],
                tree={"/".join(j(y) for y in x["d"]) or ".": sorted(j(n) for n in x["n"]) for x in t["tree"]},
                texts={path("", x["t"]): [spell("", l["e"]) if l["k"] == "path" else NOISE[l["k"]] for l in x["l"]] for x in t["texts"]})


HOST = """[ccpp-table-properties]
  name = host
  type = host
[ccpp-arg-table]
  name = host
  type = host
[ errmsg ]
  standard_name = ccpp_error_message
  units = none
  type = character | kind = len=512
  dimensions = ()
[ errcode ]
  standard_name = ccpp_error_code
  units = 1
  type = integer
  dimensions = ()
"""
MOD = """[ccpp-table-properties]
  name = mod_%(n)s
  type = module
[ccpp-arg-table]
  name = mod_%(n)s
  type = module
[ var_%(n)s ]
  standard_name = std_%(n)s
  units = 1
  type = integer
  dimensions = ()
"""
SCHEME = """[ccpp-table-properties]
  name = %(n)s
  type = scheme
[ccpp-arg-table]
  name = %(n)s_run
  type = scheme
%(a)s[ errmsg ]
  standard_name = ccpp_error_message
  units = none
  type = character | kind = len=512
  dimensions = ()
  intent = out
[ errcode ]
  standard_name = ccpp_error_code
  units = 1
  type = integer
  dimensions = ()
  intent = out
"""
ARG = """[ var_%(n)s ]
  standard_name = std_%(n)s
  units = 1
  type = integer
  dimensions = ()
  intent = in
"""
SDF = """<?xml version="1.0" encoding="UTF-8"?>
<suite name="%s" version="1.0">
  <group name="grp">
%s
  </group>
</suite>
"""


def w(p, s):
    with open(p, "w") as f:
        f.write(s)


def fort(name, args):
    a = args + ["errmsg", "errcode"]
    return (f"module {name}\ncontains\n  !> \\section arg_table_{name}_run\n  !! \\htmlinclude {name}_run.html\n"
            f"  subroutine {name}_run({', '.join(a)})\n" + "".join(f"    integer, intent(in) :: {x}\n" for x in args)
            + "    character(len=512), intent(out) :: errmsg\n    integer, intent(out) :: errcode\n    errcode = 0\n    errmsg = ''\n"
            f"  end subroutine {name}_run\nend module {name}\n")


def tool(c, fs, t, root, es, want):
    """Give the list to ccpp_capgen.py: files of the list are good, the others are not."""
    kind = j(t["sufs"][0])
    aux = root + "_x"
    os.makedirs(aux)
    w(f"{aux}/host.meta", HOST)
    w(f"{aux}/host.F90", "program host\n  !> \\section arg_table_host\n  !! \\htmlinclude host.html\n  character(len=512) :: errmsg\n  integer :: errcode\nend program host\n")
    names = [f"x{i}" for i in range(len(want))]
    role = "suites" if kind == "xml" else "scheme" if t["args"]["sp"] % 2 else "host"
    argv = {"host": f"{aux}/host.meta", "scheme": f"{aux}/sch.meta", "suites": f"{aux}/one.xml"}
    given = argument(t, es)
    for p, n in zip(want, names):
        base = p[:-len(kind) - 1]
        if role == "host":
            w(p, MOD % dict(n=n))
            w(base + ".F90", f"module mod_{n}\n  !> \\section arg_table_mod_{n}\n  !! \\htmlinclude mod_{n}.html\n  integer :: var_{n}\nend module mod_{n}\n")
        elif role == "scheme":
            w(p, SCHEME % dict(n=n, a=""))
            w(base + ".F90", fort(n, []))
        else:
            w(p, SDF % (n, "    <scheme>sch</scheme>"))
    used = names if role == "host" else []
    w(f"{aux}/sch.meta", SCHEME % dict(n="sch", a="".join(ARG % dict(n=n) for n in used)))
    w(f"{aux}/sch.F90", fort("sch", ["var_" + n for n in used]))
    w(f"{aux}/one.xml", SDF % ("one", "\n".join(f"    <scheme>{n}</scheme>" for n in (names if role == "scheme" else []) + ["sch"])))
    argv[role] = given if role == "suites" else f"{argv[role]},{given}"
    out = f"{aux}/out"
    rc, o = fs.tool("ccpp_capgen.py", ["--host-files", argv["host"], "--scheme-files", argv["scheme"], "--suites", argv["suites"],
                                       "--output-root", out, "--host-name", "host"], path(root, t["args"]["base"]))
    key = f"tool {role}"
    if role == "suites" and not want:
        return          # nothing to generate
    if rc:
        c.violation(key, "ccpp_capgen.py fails with the files of the list: " + o[-600:], dict(describe(t, root, es), role=role))
        return
    caps = {n[len("ccpp_"):-len("_cap.F90")] for n in os.listdir(out) if n.endswith("_cap.F90") and n.startswith("ccpp_")}
    suites = set(names) if role == "suites" else {"one"}
    if not suites <= caps or any(n.startswith("x") and n not in suites for n in caps):
        c.violation(key, f"suites {sorted(caps)} instead of {sorted(suites)}", dict(describe(t, root, es), role=role))
    c.steps += 1
    c.cov["tool"] = c.cov.get("tool", 0) + 1


def check(c):
    n = 24000 if c.thorough else 3200
    rs = pmap(lambda k: c.tlc("FileList", CFG, simulate=n // NCPU, depth=600, seed=c.seed * 1013 + k, timeout=850), list(range(NCPU)))

    def work(k):
        fs = ForkSrv(c)
        top = os.path.join(c.tmp, f"p{k}")
        ts = rs[k].lines
        for i0 in range(0, len(ts), 40):
            os.makedirs(top)
            req, es = [], []
            for i, t in enumerate(ts[i0:i0 + 40]):
                root = f"{top}/r{i}"
                e = layout(t, root)
                es.append(e)
                at = path(root, t["args"]["base"]).rstrip("/")
                h = t["args"]["how"]
                req.append(dict(cwd=at if h < 3 else top, sufs=[j(s) for s in t["sufs"]], files=argument(t, e) if h % 2 else e,
                                kw=dict(root_path=at) if h > 2 else {}))
            r = fs.op("lists", req, ops="fileops.py")
            if r["val"] is None:
                c.violation("crash", "the file list reader does not come back: " + r["out"][-500:])
                shutil.rmtree(top)
                continue
            for i, (t, e, v) in enumerate(zip(ts[i0:i0 + 40], es, r["val"])):
                root = f"{top}/r{i}"
                want = [path(root, p) for p in t["list"]]
                bad = [path(root, p) for p in t["errs"]]
                d = describe(t, root, e)
                c.traces += 1
                c.steps += len(want) + 1
                cut = lambda q: [str(x).replace(root, "") for x in q]
                c.cov["listed"] = c.cov.get("listed", 0) + len(want)
                if bad:
                    c.cov["missing"] = c.cov.get("missing", 0) + 1
                    if "v" in v:
                        c.violation("missing", f"{cut(bad)} do not exist, but the list is {cut(v['v'])}", d)
                    elif v["e"] != "CCPPError":
                        c.violation("missing", f"{v['e']}: {v['m']}", d)
                    elif any(b not in v["m"] for b in bad):
                        c.violation("missing", f"{cut(bad)} do not exist, but the error is {v['m'].replace(root, '')}", d)
                elif "e" in v:
                    c.violation("list", f"{v['e']}: {v['m'].replace(root, '')}, not {cut(want)}", d)
                elif [os.path.normpath(x) for x in v["v"]] != want:
                    c.violation("list", f"{cut(v['v'])}, not {cut(want)}", d)
                elif len(t["sufs"]) == 1 and t["args"]["how"] == 1 and i % 4 == 0:
                    tool(c, fs, t, root, e, want)
                if not c.samples:
                    c.samples.append(dict(d, list=cut(want)))
            shutil.rmtree(top)
        fs.close()

    fork_map(c, work, range(NCPU))


main(check, "C25", assumptions=["no symbolic links; a directory name contains no wildcard character; a wildcard has a suffix and matches no directory",
                                "a wildcard that matches nothing stands for no files", "file names contain no commas"])
