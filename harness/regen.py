"""Histories of generations into one directory, recorded for GenTrace.tla."""
import hashlib
from capgenlab import *
import capgenlab, preblab

OLD = 10 ** 9
# (standard name, units, host units)
Q = [("quantity_a", "m", "m"), ("quantity_b", "K", "K"), ("quantity_c", "Pa", "hPa"), ("quantity_d", "1", "1")]


class State:
    """The inputs."""
    def __init__(self):
        self.sv = {"alpha": 0, "beta": 0, "gamma": 0}
        self.note = 0
        self.grp = {"s1": {"g1": ["alpha", "beta"]}, "s2": {"g1": ["gamma"]}}
        self.sel = ["s1", "s2"]
        self.host = self.kind = self.dep = self.debug = self.twist = 0
        self.flip = {"s1": 0, "s2": 0}          # order of the groups
        self.swap = 0
        self.brk = None

    def key(self):
        return json.dumps(vars(self), sort_keys=True)

    def edit(self, what, a, b):
        sch = sorted(self.sv)[a % 3]
        if what == "scheme":
            self.sv[sch] = (self.sv[sch] + 1 + b % 2) % 3
        elif what == "same":
            self.note = (self.note + 1) % 3
        elif what == "group":
            s = ("s1", "s2")[a % 2]
            if "g2" in self.grp[s]:
                del self.grp[s]["g2"]
            else:
                self.grp[s]["g2"] = [sch]
        elif what == "order":
            g = self.grp[("s1", "s2")[a % 2]]["g1"]
            if b % 2:
                g.reverse()
            elif "gamma" in g and len(g) > 1:
                g.remove("gamma")
            elif "gamma" not in g:
                g.append("gamma")
        elif what == "swap":                # these change no length
            self.swap = (self.swap + 1 + b % 3) % 4
        elif what == "flip":
            s = ("s1", "s2")[a % 2]
            self.flip[s] = 1 - self.flip[s]
            self.grp[s].setdefault("g2", [sch])
        elif what == "select":
            self.sel = [["s1"], ["s1", "s2"], ["s2", "s1"]][(a + b) % 3]
        else:
            setattr(self, what, 1 - getattr(self, what))


def schemes(st):
    r = []
    for n in sorted(st.sv):
        k = st.sv[n]
        std = [Q[(sorted(st.sv).index(n) + j) % len(Q)] for j in range(1 + k)]
        al = [A(f"x{j}", q[0], q[1], (), "real", "kind_phys", ("inout", "in", "out")[j], log=False) for j, q in enumerate(std)]
        if n == "alpha" and st.brk == 0:
            al.append(A("z", "quantity_of_nobody", "m", (), "real", "kind_phys", "in"))
        if n == "alpha" and st.brk == 1:
            al[0].units = "kg m-3"
        ph = {"run": al, "init": al[:1]} if k != 1 else {"run": al}
        s = Scheme(n, ph)
        if n == "beta" and st.dep:
            s.table_props = {"dependencies": "dep1.F90"}
        r.append(s)
    return r


class Lab:
    """One project directory."""
    def __init__(self, tool, d, layout):
        self.tool, self.d, self.layout = tool, d, layout
        os.makedirs(d)
        self.inputs = set()

    def write(self, st):
        d = self.d
        if self.inputs:
            for f in self.inputs:
                os.remove(os.path.join(d, f))
        before = self.tree()
        sch = schemes(st)
        nm = "hh" if st.host else "h"
        hv = [HostVar(f"{nm}_{Q[i ^ st.swap][0]}", q[0], q[2], (), "real", "kind_phys") for i, q in enumerate(Q)]
        st_s = {s: [(g, list(x)) for g, x in sorted(st.grp[s].items(), reverse=bool(st.flip[s]))] for s in ("s1", "s2")}
        if st.brk == 2:
            st_s["s1"][-1][1].append("scheme_of_nobody")
        if self.tool == "capgen":
            suites = [{"name": s, "groups": [{"name": g, "items": x} for g, x in st_s[s]]} for s in ("s1", "s2")]
            p = capgenlab.Project(d, suites, sch, hv, kinds=["kind_phys=REAL32" if st.twist else "kind_phys=REAL64"] + (["kind_extra=REAL32"] if st.kind else []))
            p.write()
            sfile = "suite_s1.xml"
        else:
            suites = [{"name": s, "groups": [{"name": g, "subcycles": [{"loop": 1, "schemes": x}]} for g, x in st_s[s]]} for s in ("s1", "s2")]
            kw = {1: dict(caps_dir="caps", api_dir="api"), 3: dict(namespace="ns1", legacy=True)}.get(self.layout, {})
            ddts = {"box_t": ("box", [])} if st.kind else None
            p = preblab.PreProject(d, suites, sch, hv + [preblab.HostVar("ncols", "horizontal_dimension", "count", (), "integer", None)],
                                   ddts=ddts, insts=[1],
                                   extra_meta="[box]\n  standard_name = box_t\n  units = DDT\n  dimensions = ()\n  type = box_t\n" if st.kind else "",
                                   **kw)
            p.write()
            sfile = ("suite_" if p.legacy else "") + "s1.xml"
        p._w("dep1.F90", "module dep1\nend module dep1\n")
        if st.note:
            for f in ("alpha.meta", "beta.F90", sfile):
                t = open(os.path.join(d, f)).read()
                p._w(f, t + {"a": "# note\n", "b": "! note\n", "s": "<!-- note -->\n"}[f[0]] * st.note)
        if st.brk == 3:
            p._w("alpha.meta", open(os.path.join(d, "alpha.meta")).read().replace("  units = ", "  unit = ", 1))
        if st.brk == 4:
            p._w(sfile, open(os.path.join(d, sfile)).read().replace("</group>", "</grp>", 1))
        self.inputs = self.tree() - before
        self.p = p
        return p

    # where things go
    def out(self):
        return "b d" if self.layout == 2 else ("build" if self.tool == "prebuild" else "out")

    def dirs(self):
        r = [self.out()]
        if self.layout == 1:
            r += ["caps", "api"] if self.tool == "prebuild" else ["db"]
        return r

    def argv(self, st, extra=()):
        if self.tool == "prebuild":
            a = self.p.argv(self.out(), suites=st.sel)
            if st.debug:
                a.append("--debug")
            return "ccpp_prebuild.py", a + list(extra)
        a = self.p.gen_cmd(self.out(), suites=[f"suite_{s}.xml" for s in st.sel])[2:]
        if self.layout == 3:
            a[a.index("--output-root") + 1] = self.out()
        if self.layout == 1:
            a += ["--ccpp-datafile", os.path.join(self.d, "db", "table.xml")]
        if st.debug:
            a.append("--debug")
        return "ccpp_capgen.py", a + list(extra)

    def tree(self):
        r = set()
        for root, _, fs in os.walk(self.d):
            r |= {os.path.relpath(os.path.join(root, f), self.d) for f in fs}
        return r

    def generated(self, ids, canon_dir=None):
        """{file: [content id, touched]} of everything that is not an input; resets the times."""
        r = {}
        for f in self.tree() - self.inputs:
            path = os.path.join(self.d, f)
            with open(path, "rb") as h:
                t = h.read()
            if canon_dir:
                t = t.replace(self.d.encode(), canon_dir.encode())
            x = hashlib.sha1(t).hexdigest()
            r[f] = [ids.setdefault(x, len(ids) + 1), os.stat(path).st_mtime_ns != OLD * 10 ** 9]
            os.utime(path, (OLD, OLD))
        return r


USERFILES = ["README", "ccpp_notes.txt", "my_cap.F90", "ccpp_extra.F90", "sub/ccpp_x_cap.F90", "CCPP_MINE.mk", "datatable.xml.save"]


def up_rules(files):
    """prebuild documents that a changed group cap rewrites the suite cap, that the API, that its include files"""
    up = {}
    api = [f for f in files if re.search(r"ccpp_static_api\w*\.F90$", f)]
    for f in files:
        m = re.search(r"ccpp_(s\d)_cap\.F90$", f)
        if m:
            up[f] = [g for g in files if re.search(rf"ccpp_{m.group(1)}_\w+_cap\.F90$", g)]
        elif f in api:
            up[f] = [g for g in files if re.search(r"ccpp_s\d_cap\.F90$", g)]
        elif re.search(r"CCPP_API\.(cmake|sh)$", f):
            up[f] = api
    return up


def history(c, idx, tool, t, fs):
    """Execute one history; returns the trace and readable steps."""
    base = os.path.join(c.tmp, f"{tool}{idx}")
    os.makedirs(base)
    st, ids = State(), {}
    lab = Lab(tool, os.path.join(base, "P"), t["setup"]["layout"])
    lab.write(st)
    for dd in lab.dirs():
        for u in USERFILES:
            f = os.path.join(lab.d, dd, u)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as h:
                h.write("mine\n")
    for u in ("b", "d", "user.txt", "out.txt"):
        with open(os.path.join(lab.d, u), "w") as h:
            h.write("mine\n")
    init = lab.generated(ids)
    user = sorted(init)
    steps, notes, fresh_cache, prev, gen = [], [], {}, init, set()

    def fresh():
        k = st.key()
        if k not in fresh_cache:
            f = Lab(tool, os.path.join(base, "F"), lab.layout)
            try:
                f.write(st)
                for dd in f.dirs():
                    os.makedirs(os.path.join(f.d, dd), exist_ok=True)
                s, a = f.argv(st)
                rc, out = fs.tool(s, a, f.d)
                g = f.generated(ids, lab.d) if rc == 0 else {}
                fresh_cache[k] = (rc, out, {x: v[0] for x, v in g.items()})
            finally:
                shutil.rmtree(f.d, True)
        return fresh_cache[k]

    for n, o in enumerate(t["h"]):
        op, a, b = o["op"], o["a"], o["b"]
        if op.startswith("edit"):
            st.edit(op[5:], a, b)
            lab.write(st)
            continue
        if op in ("break", "mend"):
            st.brk = a if op == "break" else None
            lab.write(st)
            continue
        if op == "lose":
            have = [f for f in sorted(set(prev) & gen)]
            if not have:
                continue
            f = have[(a * 4 + b) % len(have)]
            os.remove(os.path.join(lab.d, f))
            prev = lab.generated(ids)
            steps.append(["lose", prev, {}, False])
            notes.append(f"lose {f}")
            continue
        frc, fout, fr = fresh()
        c.steps += 1
        if (frc == 0) != (st.brk is None):
            c.violation(f"{tool}:{idx}:{n}:exit", f"a fresh {tool} run with {'broken' if st.brk is not None else 'correct'} inputs "
                        f"exits with {frc}: {fout[-400:]}", dict(state=vars(st), history=t["h"][:n + 1]))
            break
        if op == "clean":
            s, av = lab.argv(st, ["--clean"])
            for root, ds, _ in os.walk(lab.d):
                os.chmod(root, 0o777)
            rc, out = run_unprivileged([PY, f"{REPO}/scripts/{s}"] + av, lab.d, base)
            kind = "clean"
            if rc != 0:
                c.violation(f"{tool}:{idx}:{n}:clean", f"--clean exits with {rc}: {out[-400:]}", t["h"][:n + 1])
                break
        elif op == "kill":
            s, av = lab.argv(st)
            r = fs.op("killed", {"root": lab.d, "k": a, "cwd": lab.d, "script": os.path.join(REPO, "scripts", s), "argv": av}, ops="faultops.py")
            rc, out = r["rc"], r["out"]
            kind = "kill" if rc == 200 else ("ok" if rc == 0 else "fail")
        else:
            s, av = lab.argv(st, ["--force-overwrite"] if op == "force" else [])
            rc, out = fs.tool(s, av, lab.d)
            kind = "ok" if rc == 0 else "fail"
        prev = lab.generated(ids)
        if kind in ("ok", "fail") and (kind == "ok") != (frc == 0):
            c.violation(f"{tool}:{idx}:{n}:verdict", f"{tool} exits with {rc} here but with {frc} in an empty directory: {out[-500:]}", t["h"][:n + 1])
            break
        gen |= set(fr)
        steps.append([kind, prev, fr if kind in ("ok", "kill") else {}, op == "force"])
        notes.append(f"{op} -> {kind}")
    shutil.rmtree(base, True)
    c.traces += 1
    return dict(init=init, user=user, steps=steps, notes=notes, tool=tool, idx=idx, h=t["h"], layout=lab.layout)


def run_unprivileged(cmd, cwd, base):
    """cleaning deletes files: run it as a user who owns nothing but the scratch directory"""
    uid = 65534
    for root, ds, fs in os.walk(base):
        os.chown(root, uid, uid)
        for f in fs:
            os.chown(os.path.join(root, f), uid, uid)
    p = os.path.dirname(base)
    mode = os.stat(p).st_mode
    os.chmod(p, 0o711)
    try:
        pr = subprocess.run(cmd, cwd=cwd, env=py_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60,
                            user=uid, group=uid, extra_groups=[], text=True)
        return pr.returncode, pr.stdout
    except subprocess.TimeoutExpired:
        return -999, "timeout"


def tla_trace(tr):
    names = {}

    def q(f):
        return json.dumps(f)

    def disk(d):
        if not d:
            return "<< >>"
        return "(" + " @@ ".join(f"({q(f)} :> [c |-> {v[0]}, t |-> {'TRUE' if v[1] else 'FALSE'}])" for f, v in sorted(d.items())) + ")"

    def fresh(d):
        return "(" + " @@ ".join(f"({q(f)} :> {v})" for f, v in sorted(d.items())) + ")" if d else "<< >>"
    files = set().union(*[set(s[1]) | set(s[2]) for s in tr["steps"]]) if tr["steps"] else set()
    staging = tr["tool"] == "capgen"
    up = {} if staging else up_rules(files)
    always = [f for f in files if (re.search(r"(datatable|table)\.xml$", f) if staging else f.endswith((".html", ".tex")))]
    st = ",\n   ".join(f"[op |-> \"{k}\", disk |-> {disk(d)}, fresh |-> {fresh(fr)}, force |-> {'TRUE' if fo else 'FALSE'}]" for k, d, fr, fo in tr["steps"])
    ups = "(" + " @@ ".join(f"({q(f)} :> {{{', '.join(q(x) for x in g)}}})" for f, g in sorted(up.items())) + ")" if up else "<< >>"
    return (f"[init |-> {disk(tr['init'])}, user |-> {{{', '.join(q(x) for x in tr['user'])}}}, staging |-> {'TRUE' if staging else 'FALSE'},\n"
            f"  up |-> {ups}, always |-> {{{', '.join(q(x) for x in always)}}},\n  steps |-> << {st} >>]")


TRACE_CFG = """INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
"""
HIST_CFG = """CONSTANTS LEN = %d FORCE = %s
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
MODEL = """---- MODULE GenDirModel ----
EXTENDS GenDir
MOrder == <<%s>>
MBits == [mk |-> {2}, cmake |-> {2}, g |-> {1, 2}, s |-> {2}, api |-> {1}]
MUp == [mk |-> {}, cmake |-> {}, g |-> {}, s |-> %s, api |-> %s]
MStyle == [mk |-> "always", cmake |-> "%s", g |-> "%s", s |-> "%s", api |-> "%s"]
====
"""
MODEL_CFG = """CONSTANTS Order <- MOrder Bits <- MBits Up <- MUp Style <- MStyle NBITS = 2 STAGING = %s
SPECIFICATION Spec
PROPERTY Converges
PROPERTY FailsClean
PROPERTY KillsClean
PROPERTY Cleans
CHECK_DEADLOCK FALSE
"""


def model_check(c, tool):
    if tool == "capgen":
        m = MODEL % ('"cmake", "g", "s", "api", "mk"', "{}", "{}", *["stage"] * 4)
        return c.tlc("GenDirModel", MODEL_CFG % "TRUE", modules={"GenDirModel": m}, workers=2)
    m = MODEL % ('"mk", "cmake", "g", "s", "api"', '{"g"}', '{"s"}', *["cmp"] * 4)
    return c.tlc("GenDirModel", MODEL_CFG % "FALSE", modules={"GenDirModel": m}, workers=2)


def check(c, tool):
    n, ln = (480, 26) if c.thorough else (96, 20)
    mc = pmap(lambda a: a(), [lambda: model_check(c, tool),
                              lambda: c.tlc("GenHist", HIST_CFG % (ln, "TRUE" if tool == "capgen" else "FALSE"), simulate=n, depth=ln + 2)])
    hs = mc[1].lines
    if len(hs) < n * 0.9:
        raise HarnessError(f"only {len(hs)} histories")

    def work(k):
        fs = ForkSrv(c)
        try:
            return [history(c, i, tool, hs[i], fs) for i in range(k, len(hs), NCPU)]
        finally:
            fs.close()
    trs = [x for r in fork_map(c, work, list(range(NCPU))) for x in r]
    kinds = {}
    for x in trs:
        for s in x["steps"]:
            kinds[s[0]] = kinds.get(s[0], 0) + 1
    c.cov["commands"] = kinds
    c.samples.append(dict(history=hs[0]["h"], outcome=trs[0]["notes"]))

    def validate(k):
        part = trs[k::NCPU]
        if not part:
            return []
        m = "---- MODULE TraceData ----\nEXTENDS Naturals, Sequences, TLC\nTraces == <<\n" + ",\n".join(tla_trace(x) for x in part) + "\n>>\n====\n"
        r = c.tlc("GenTrace", TRACE_CFG, modules={"TraceData": m})
        return [(part[e["t"] - 1], e) for e in r.lines]
    for r in pmap(validate, list(range(NCPU))):
        for x, e in r:
            k = x["steps"][e["i"] - 1][0]
            c.violation(f"{tool}:{x['idx']}:{e['i']}:{k}", f"{tool} (layout {x['layout']}): after {x['notes'][:e['i']][-6:]} the files {e['bad'][:6]} "
                        f"are not what the specification allows", dict(history=x["h"], bad=e["bad"], notes=x["notes"]))
