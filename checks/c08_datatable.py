#!/usr/bin/env python3
"""C08: what the database of a generation reports (CapIntro.tla)."""
from capintro import *
import xml.etree.ElementTree as ET

REPORTS = ["host-files", "suite-files", "utility-files", "ccpp-files", "process-list", "module-list",
           "dependencies", "suite-list"]


def table_words(e):
    w = " ".join(["<" + e.tag] + [f"{k}={v}" for k, v in e.attrib.items()])
    text = (e.text or "").split()
    if not len(e) and not text:
        return (w + " />").split()
    w = (w + ">").split()
    for x in e:
        w += table_words(x)
    return w + text + [f"</{e.tag}>"]


def judge(c, idx, t, fs, rng):
    d = os.path.join(c.tmp, f"d{idx}")
    p = project(d, t)
    cmd = p.gen_cmd()[2:]
    # where the database goes: the default name, another name, an absolute one
    df = rng.choice(["", "tab.xml", "tab.xml", os.path.join(d, "elsewhere.xml")])
    if df:
        cmd += ["--ccpp-datafile", df]
    path = os.path.join(d, "out", df) if df else os.path.join(d, "out", "datatable.xml")
    rc, out = fs.tool("ccpp_capgen.py", cmd, d)
    c.traces += 1
    if rc != 0:
        c.cov["not generated"] = c.cov.get("not generated", 0) + 1
        if not t_own(t):
            c.violation(f"d{idx}:generate", "not generated: " + out[-600:], t)
        shutil.rmtree(d, True)
        return
    if not os.path.exists(path):
        c.violation(f"d{idx}:file", f"no database {path}", t)
        return
    sep = rng.choice([",", ";", " ; "])

    def ask(args):
        c.steps += 1
        rc, out = fs.tool("ccpp_datafile.py", [path] + args + ["--separator", sep], d)
        if rc != 0:
            return None, out[-600:]
        out = out.strip("\n")
        return [x for x in out.split(sep.strip() if not out else sep)] if out.strip() else [], ""

    def expect(args, want, order=True):
        got, err = ask(args)
        if got is None:
            c.violation(f"d{idx}:{args}", f"{args} fails: {err}", t)
            return False
        a, b = (got, list(want)) if order else (sorted(got), sorted(want))
        if a != b:
            c.violation(f"d{idx}:{args}", f"{args} reports {a}, expected {b}", t)
            return False
        return True
    o = os.path.join(d, "out")
    src = os.path.join(REPO, "src")
    hostf = [f"{o}/{p.host}_ccpp_cap.F90"]
    suitef = [f"{o}/ccpp_{s['name']}_cap.F90" for s in t["suites"]]
    utilf = [f"{o}/ccpp_kinds.F90"] + [f"{src}/{x}.F90" for x in ("ccpp_constituent_prop_mod", "ccpp_hashable", "ccpp_hash_table")]
    n0 = len(c.viol)
    norm = lambda fs: fs
    for f in hostf + suitef + utilf:
        if not os.path.exists(f):
            c.violation(f"d{idx}:missing", f"{f} does not exist", t)
    made = sorted(glob.glob(o + "/*.F90"))
    if made != sorted(hostf + suitef + utilf[:1]):
        c.violation(f"d{idx}:files", f"generated files {made}", t)
    for rep, want in (("host-files", hostf), ("suite-files", suitef), ("utility-files", utilf),
                      ("ccpp-files", hostf + suitef + utilf)):
        got, err = ask(["--" + rep])
        got = None if got is None else sorted(os.path.realpath(x) for x in got)
        if got != sorted(os.path.realpath(x) for x in want):
            c.violation(f"d{idx}:{rep}", f"{rep}: {got} {err}, expected {sorted(want)}", t)
    used = t["used"]
    modn = lambda s: f"{s}_mod" if t["meta"][s]["mod"] else s
    expect(["--module-list"], sorted(modn(s) for s in used))
    expect(["--process-list"], sorted(f"{t['meta'][s]['pname']}={s}" for s in used if t["meta"][s]["proc"]))
    deps = set()
    for s, m in t["meta"].items():
        if any(x["c"] == s for x in t["args"]):
            deps |= {os.path.abspath(os.path.join(d, m["rel"], f)) for f in m["deps"]}
    expect(["--dependencies"], sorted(deps))
    expect(["--suite-list"], [s["name"] for s in t["suites"]])
    prot = {h["std"] for h in t["host"] if h["prot"]}
    hostall = [h["std"] for h in t["host"]] + list(HOSTFIX)
    # elements of a derived type belong to the host too, but are not
    # variables of a host table
    elems = {"element_one", "element_two"}
    expect(["--host-variables"], sorted(x for x in hostall if x not in elems), order=False)
    expect(["--host-variables", "--exclude-protected"],
           sorted(x for x in hostall if x not in elems and x not in prot and x not in PROTFIX), order=False)
    for a in t["answer"]:
        allv = {}
        for q in ("required", "input", "output"):
            for ex in (False, True):
                i, u = set(a["in" if ex else "pin"]), set(a["out"])
                lk = set(a["leak"])
                want = {"required": i | u, "input": i, "output": u}[q]
                args = [f"--{q}-variables", a["name"]] + (["--exclude-protected"] if ex else [])
                got, err = ask(args)
                if got is None:
                    c.violation(f"d{idx}:{args}", f"{args} fails: {err}", t)
                    continue
                g = set(got) - EXTENTS
                if len(got) != len(set(got)):
                    c.violation(f"d{idx}:{args}", f"{args} reports duplicates: {got}", t)
                elif g != want:
                    if lk and g == want | lk:
                        c.violation(LEAK, f"{args} reports {got}", t)
                    else:
                        c.violation(f"d{idx}:{args}", f"{args} reports {sorted(g)}, expected {sorted(want)}", t)
    for bad in ["nosuch", t["answer"][0]["name"] + "x"]:
        for q in ("required", "input", "output"):
            expect([f"--{q}-variables", bad], [])
    # the printed table holds the same elements, attributes and texts
    words = table_words(ET.parse(path).getroot())
    for args in (["--show"], ["--show", "--line-wrap", str(rng.choice([40, 70, 100]))],
                 ["--show", "--indent", str(rng.choice([0, 1, 4]))]):
        c.steps += 1
        rc, out = fs.tool("ccpp_datafile.py", [path] + args, d)
        if rc != 0 or out.split() != words:
            k = next((k for k, (x, y) in enumerate(zip(out.split(), words)) if x != y), "end")
            c.violation(f"d{idx}:{args}", f"{args}: exit {rc}, word {k} differs: {out[-400:]}", t)
    if len(c.viol) == n0 or not os.environ.get("KEEP"):
        shutil.rmtree(d, True)
    if not c.samples:
        c.samples.append(t["answer"])


LEAK = "a variable which another suite uses with another intent in the same phase"
EXTENTS = {"horizontal_dimension", "horizontal_loop_begin", "horizontal_loop_end", "vertical_layer_dimension"}
PROTFIX = ["horizontal_dimension", "vertical_layer_dimension", "vertical_interface_dimension", "number_of_tracers",
           "index_of_first_tracer", "index_of_second_tracer", "index_of_zz_tracer", "horizontal_loop_begin", "horizontal_loop_end"]
HOSTFIX = PROTFIX + ["thing_instance", "ccpp_error_message", "ccpp_error_code",
                     "ccpp_model_constituents_object"]


def check(c):
    ts = configs(c, 1600 if c.thorough else 120)

    def work(k):
        fs = ForkSrv(c)
        try:
            for i in range(k, len(ts), NCPU):
                judge(c, i, ts[i], fs, random.Random(c.seed * 4099 + i))
        finally:
            fs.close()
    fork_map(c, work, list(range(NCPU)))
    c.cov["configurations"] = len(ts)


if __name__ == "__main__":
    main(check, "C08", assumptions=["run phase arguments are dimensioned by the loop extent",
                                    "variables of derived type are reported by their own standard name"])
