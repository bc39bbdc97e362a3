#!/usr/bin/env python3
"""C28: build lists and variable tables written by prebuild (BuildLists.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from preblab import *
import html.parser

CFG = """INIT Init
NEXT Next
INVARIANT Declared
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
DEPS = {"dep:a": "deps/depa.F90", "dep:b": "deps/more/depb.F90", "dep:c": "depc.f90", "dep:d": "deps/depd.F",
        "dep:e": "depe.f", "dep:none": "deps/gone.F90"}
DIMS = ("dim_a", "dim_b")
KIND = {"real": "kind_phys", "character": "len=10"}
STAGES = ("init", "timestep_init", "run", "timestep_finalize", "finalize")


def var_meta(local, std, long, units, rank, typ, kind, intent=None, order=None):
    pr = [f"standard_name = {std}", f"units = {units}", "dimensions = (" + ",".join(DIMS[:rank]) + ")", f"type = {typ}"]
    pr += [f"long_name = {long}"] if long else []
    pr += [f"kind = {kind}"] if kind else []
    pr += [f"intent = {intent}"] if intent else []
    if order:
        order.shuffle(pr)
    return f"[{local}]\n" + "".join(f"  {p}\n" for p in pr)


class Lists:
    """The project of one drawn behaviour in directory d."""
    def __init__(self, d, t, rng):
        self.d, self.t, self.rng = d, t, rng
        self.hpath = {h["m"]: ("hsub/" if h["sub"] else "") + h["m"] + ".F90" for h in t["hosts"]}
        self.ppath = {k + 1: ("phys/" if f["sub"] else "") + f"pool_{k + 1}.F90" for k, f in enumerate(t["pool"])}
        self.vars = {v["n"]: (v, h) for h in t["hosts"] for v in h["vars"]}

    def path(self, x):
        a, b = x.split(":")
        return os.path.join(self.d, DEPS[x] if a == "dep" else self.hpath[b] if a == "host" else self.ppath[int(b)])

    def w(self, f, text):
        p = os.path.join(self.d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write(text)

    def props(self, name, typ, deps, rel, home):
        rng = self.rng
        s = f"[ccpp-table-properties]\n  name = {name}\n  type = {typ}\n"
        deps = sorted(deps)
        rng.shuffle(deps)
        base = os.path.join(self.d, os.path.dirname(home))
        if rel and deps:
            lib = os.path.join(self.d, rng.choice(("deps", "deps/more", "hsub")))
            r = "  relative_path = " + os.path.relpath(lib, base) + "\n"
            base = lib
        else:
            r = ""
        names = [os.path.relpath(self.path(x), base) for x in deps]
        if not names:
            dl = rng.choice(("", "  dependencies =\n", "  dependencies = None\n"))
        elif rng.random() < 0.3 and len(names) > 1:
            dl = f"  dependencies = {names[0]}\n  dependencies = {','.join(names[1:])}\n"
        else:
            dl = "  dependencies = " + rng.choice((",", ", ")).join(names) + "\n"
        return s + (r + dl if rng.random() < 0.5 else dl + r)

    def member(self, v, h):
        return v["d"] and h["ty"]

    def host_files(self, k, h):
        m, rng = h["m"], self.rng
        ty = f"vt_{m.lower()}"
        deps = set(h["dep"])
        tdeps = {x for x in deps if h["ty"] and rng.random() < 0.4}
        vs = sorted(h["vars"], key=lambda v: v["n"])
        L = [f"module {m}", "  use ccpp_types, only: ccpp_t" if not k else "  use ccpp_kinds", "  implicit none"]
        meta = ""
        hdr = lambda n: [f"!> \\section arg_table_{n} Argument Table", f"!! \\htmlinclude {n}.html", "!!"]
        if h["ty"]:
            L += hdr(ty) + [f"  type {ty}", "    integer :: unused"] + [f"    ! member x_{v['n']}" for v in vs if self.member(v, h)] + [f"  end type {ty}"]
            meta += self.props(ty, "ddt", tdeps, h["rel"], self.hpath[m]) + f"[ccpp-arg-table]\n  name = {ty}\n  type = ddt\n"
            meta += "".join(var_meta("x_" + v["n"], v["n"], v["l"], v["u"], v["r"], v["t"], KIND.get(v["t"]), order=rng) for v in vs if self.member(v, h))
            if not any(self.member(v, h) for v in vs):
                meta += var_meta("unused", f"unused_{m.lower()}", "", "count", 0, "integer", None)
        L += hdr(m) + [f"end module {m}"]
        meta += self.props(m, "module", deps - tdeps, h["rel"], self.hpath[m]) + f"[ccpp-arg-table]\n  name = {m}\n  type = module\n"
        if not k:
            meta += "[cdata]\n  standard_name = ccpp_t_instance\n  units = DDT\n  dimensions = ()\n  type = ccpp_t\n"
            meta += "".join(f"[n{x}]\n  standard_name = {x}\n  units = count\n  dimensions = ()\n  type = integer\n" for x in DIMS)
        if h["ty"]:
            meta += f"[{ty}]\n  standard_name = {ty}\n  units = DDT\n  dimensions = ()\n  type = {ty}\n"
            meta += f"[tv_{m}]\n  standard_name = instance_of_{ty}\n  units = DDT\n  dimensions = ()\n  type = {ty}\n"
        if h["kd"] != "no":
            # a kind is an integer without units the name of which says so
            meta += var_meta(f"k_{m}", f"kind_of_{m.lower()}", "", "count" if h["kd"] == "count" else "none", 0,
                             "real" if h["kd"] == "real" else "integer", "kind_phys" if h["kd"] == "real" else None)
        meta += "".join(var_meta("x_" + v["n"], v["n"], v["l"], v["u"], v["r"], v["t"], KIND.get(v["t"]), order=rng) for v in vs if not self.member(v, h))
        self.w(self.hpath[m], "\n".join(L) + "\n")
        self.w(self.hpath[m][:-4] + ".meta", meta)

    def pool_file(self, k, f):
        F, meta = [], ""
        for s in f["s"]:
            c = s["c"]
            L = [f"module {c}", "  implicit none", "  private", "  public :: " + ", ".join(f"{c}_{e}" for e in sorted(s["ent"])), "contains"]
            meta += self.props(c, "scheme", s["dep"], f["rel"], self.ppath[k])
            for e in sorted(s["ent"], key=STAGES.index):
                args = sorted(s["ent"][e])
                self.rng.shuffle(args)
                sub = f"{c}_{e}"
                L += [f"!> \\section arg_table_{sub} Argument Table", f"!! \\htmlinclude {sub}.html", "!!",
                      f"  subroutine {sub}({', '.join(['a_' + a for a in args] + ['errmsg', 'errflg'])})", f"  end subroutine {sub}"]
                meta += f"[ccpp-arg-table]\n  name = {sub}\n  type = scheme\n"
                for a in args:
                    v = self.vars[a][0]
                    meta += var_meta("a_" + a, a, "seen from a scheme", v["u"], v["r"], v["t"],
                                     {"character": "len=*"}.get(v["t"], KIND.get(v["t"])), self.rng.choice(("in", "inout", "out")), order=self.rng)
                meta += var_meta("errmsg", "ccpp_error_message", "", "none", 0, "character", "len=*", "out")
                meta += var_meta("errflg", "ccpp_error_code", "", "1", 0, "integer", None, "out")
            F += L + [f"end module {c}"]
        self.w(self.ppath[k], "\n".join(F) + "\n")
        self.w(self.ppath[k][:-4] + ".meta", meta)

    def write(self):
        t, rng, w = self.t, self.rng, self.w
        for k in ("deps/more", "hsub", "phys", "suites", "caps", "api", "build", "other"):
            os.makedirs(os.path.join(self.d, k))
        for x, p in DEPS.items():
            if x != "dep:none":
                w(p, "! nothing\n")
        w("ccpp_kinds.F90", "module ccpp_kinds\n!> \\section arg_table_ccpp_kinds Argument Table\n!! \\htmlinclude ccpp_kinds.html\n!!\n"
          "  integer, parameter :: kind_phys = 8\nend module ccpp_kinds\n")
        w("ccpp_kinds.meta", "[ccpp-table-properties]\n  name = ccpp_kinds\n  type = module\n[ccpp-arg-table]\n  name = ccpp_kinds\n"
          "  type = module\n" + var_meta("kind_phys", "kind_phys", "", "none", 0, "integer", None))
        for x in ("ccpp_types.F90", "ccpp_types.meta"):
            w(x, open(f"{REPO}/src/{x}").read())
        for k, h in enumerate(t["hosts"]):
            self.host_files(k, h)
        for k, f in enumerate(t["pool"], 1):
            self.pool_file(k, f)
        for u in t["suites"]:
            w(f"suites/{u['n']}.xml", static_suite_xml({"name": u["n"], "groups": [
                {"name": g["n"], "subcycles": [{"loop": 1, "schemes": g["z"]}]} for g in u["g"]]}))
        td = {"ccpp_types": {"ccpp_t": "cdata", "MPI_Comm": "", "ccpp_types": ""}, "ccpp_kinds": {"ccpp_kinds": ""}}
        for h in t["hosts"]:
            td[h["m"]] = {h["m"]: "", f"vt_{h['m'].lower()}": f"tv_{h['m']}"}
        self.hostfiles = ["ccpp_types.F90", "ccpp_kinds.F90"] + [self.hpath[h["m"]] for h in t["hosts"]]
        vf, sf = self.hostfiles[1:], list(self.ppath.values())
        rng.shuffle(vf)
        vf = self.hostfiles[:1] + vf                 # types have to be known before they are used
        rng.shuffle(sf)
        self.caps, self.api = rng.choice(("{build_dir}", "caps")), rng.choice(("{build_dir}", "api"))
        self.build = rng.choice(("build", "build", "other"))
        w("vcfg.py", CONFIG.format(vfiles=vf, typedefs=repr(td), sfiles=sf, caps=self.caps, api=self.api, suites="suites"))

    def run(self, fs):
        t = self.t
        av = ["--config", "vcfg.py"]
        if t["opt"]["named"]:
            av += ["--suites", ",".join(t["suites"][i - 1]["n"] for i in self.rng.sample(t["opt"]["want"], len(t["opt"]["want"])))]
        if self.build != "build" or self.rng.random() < 0.5:
            av += ["--builddir", self.build]
        if t["opt"]["ns"]:
            av += ["--namespace", t["opt"]["ns"]]
        return fs.tool("ccpp_prebuild.py", av, self.d)

    # ---- what its consumers make of the lists
    def consumers(self):
        b, d = os.path.join(self.d, self.build), self.d
        out = {}
        self.w("show.mk", "".join(f"include {b}/CCPP_{x}.mk\n" for x in ("TYPEDEFS", "SCHEMES", "CAPS")) + "all:\n" +
               "".join(f"\t@echo '{n}' $({v})\n" for n, v in (("T", "TYPEDEFS"), ("S.F", "SCHEMES_F"), ("S.F90", "SCHEMES_F90"), ("S.f", "SCHEMES_f"),
                                                             ("S.f90", "SCHEMES_f90"), ("C", "CAPS_F90"))))
        self.w("show.cmake", "".join(f"include({b}/CCPP_{x}.cmake)\n" for x in ("TYPEDEFS", "SCHEMES", "CAPS", "API")) +
               "".join(f'message("{n} ${{{v}}}")\n' for n, v in (("T", "TYPEDEFS"), ("S", "SCHEMES"), ("C", "CAPS"), ("A", "API"))))
        self.w("show.sh", "set -e\n" + "".join(f". {b}/CCPP_{x}.sh\n" for x in ("TYPEDEFS", "SCHEMES", "CAPS", "API")) +
               "".join(f'echo "{n} ${v}"\n' for n, v in (("T", "CCPP_TYPEDEFS"), ("S", "CCPP_SCHEMES"), ("C", "CCPP_CAPS"), ("A", "CCPP_STATIC_API"))))
        for tool, cmd in (("make", ["make", "-s", "-f", "show.mk"]), ("cmake", ["cmake", "-P", "show.cmake"]), ("shell", ["sh", "show.sh"])):
            rc, o = run(cmd, cwd=d, timeout=120)
            if rc != 0:
                return tool, o[-600:]
            r = {}
            for l in o.splitlines():
                m = re.match(r"([TSCA])(\.\w+)?( |$)", l)
                if m:
                    xs = [x for x in re.split(r"[ ;]+", l[m.end():]) if x]
                    if m.group(2) and any(os.path.splitext(x)[1] != m.group(2) for x in xs):
                        return tool, f"SCHEMES_{m.group(2)[1:]} contains {xs}"
                    r.setdefault(m.group(1), []).extend(xs)
            out[tool] = r
        return None, out

    def expected_lists(self):
        t, d = self.t, self.d
        cd, ad = (os.path.join(d, x.format(build_dir=self.build)) for x in (self.caps, self.api))
        S = {self.path(x) for x in t["files"]} | {os.path.join(d, x) for x in self.hostfiles}
        C = {os.path.join(cd, x + ".F90") for x in t["caps"]}
        A = os.path.join(ad, "ccpp_static_api" + ("_" + t["opt"]["ns"] if t["opt"]["ns"] else "") + ".F90")
        T = {m.lower() + ".mod" for m in t["mods"]} | {"ccpp_kinds.mod"}
        return {"S": sorted(S), "C": sorted(C), "A": [A], "T": sorted(T)}

    def expected_rows(self):
        r = {}
        for x in self.t["rows"]:
            v, h = x["v"], next(h for h in self.t["hosts"] if h["m"] == x["m"])
            mem = self.member(v, h)
            r[v["n"]] = [v["n"], v["l"], v["u"], str(v["r"]), v["t"], KIND.get(v["t"], ""),
                         f"MODULE {h['m']}" + (f" TYPE vt_{h['m'].lower()}" if mem else ""), (f"tv_{h['m']}%" if mem else "") + "x_" + v["n"]]
        return r


class Rows(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.rows, self.cell = [], None

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.rows.append([])
        elif tag in ("td", "th"):
            self.cell = ""

    def handle_data(self, data):
        if self.cell is not None:
            self.cell += data

    def handle_endtag(self, tag):
        if tag in ("td", "th"):
            self.rows[-1].append(self.cell.strip())
            self.cell = None


def untex(s):
    """Plain text of a piece of LaTeX; None if it is not plain text"""
    r, i = "", 0
    while i < len(s):
        if s[i] == "\\":
            m = re.match(r"\\textasciitilde\{\}|\\textasciicircum\{\}|\\textbackslash\{\}", s[i:])
            if m:
                r, i = r + ("~" if "tilde" in m.group(0) else "^" if "circum" in m.group(0) else "\\"), i + m.end()
                continue
            if i + 1 < len(s) and s[i + 1] in "%_&#${}":
                r, i = r + s[i + 1], i + 2
                continue
            return None
        if s[i] in "%_&#$^~{}":
            return None
        r, i = r + s[i], i + 1
    return r.strip()


def latex_items(text):
    out, bad = {}, None
    for it in text.split("\\begin{samepage}\\item")[1:]:
        m = re.search(r"\\hypertarget\{(.*?)\}\{\\blue\\exec\{(.*?)\}\}", it)
        if not m:
            return None, "entry without a name: " + it[:200]
        f = {}
        for key, val in re.findall(r"\\execout\{(.*?)\s*\} & \\execout\{(.*)\} \\\\$", it, re.M):
            f[key.replace("\\_", "_").strip()] = val
        rq = re.match(r"\\vtop\{(.*)\}\s*$", f.get("requested", ""))
        f["requested"] = sorted(untex(x) or "?" + x for x in rq.group(1).split("\\newline")) if rq else None
        for key in f:
            if key != "requested":
                u = untex(f[key].strip())
                if u is None:
                    bad = bad or f"{m.group(1)}: {key} is not plain text for LaTeX: {f[key].strip()!r}"
                f[key] = u
        if untex(m.group(2)) != m.group(1):
            bad = bad or f"link {m.group(1)!r} has the text {m.group(2)!r}"
        if m.group(1) in out:
            bad = bad or f"two entries for {m.group(1)}"
        out[m.group(1)] = f
    return out, bad


def judge(c, idx, t, rng, fs):
    d = os.path.join(c.tmp, f"b{idx}")
    p = Lists(d, t, rng)
    p.write()
    rc, out = p.run(fs)
    c.traces += 1
    c.steps += 1
    r = None
    b = os.path.join(d, p.build)
    if t["opt"]["flaw"]:
        left = [x for x in ("CCPP_SCHEMES.mk", "CCPP_SCHEMES.cmake", "CCPP_SCHEMES.sh") if os.path.exists(os.path.join(b, x))]
        if rc == 0:
            r = ("flaw", f"succeeds although deps/gone.F90, needed by a {t['opt']['flaw']}, does not exist: {out[-300:]}")
        elif "gone.F90" not in out:
            r = ("message", f"does not name the missing dependency gone.F90: {out[-600:]}")
        elif left:
            r = ("flawlist", f"writes {left} although a dependency is missing")
    elif rc != 0:
        r = ("fails", f"exit status {rc}: {out[-800:]}")
    else:
        tool, got = p.consumers()
        want = p.expected_lists()
        if tool:
            r = ("consumer", f"{tool} cannot read the lists: {got}")
        else:
            for tool in got:
                for key, name in (("T", "modules with types and kinds"), ("S", "files to compile"), ("C", "caps"), ("A", "static API")):
                    if tool == "make" and key == "A":
                        continue
                    # (the framework's own module of types may be listed or not)
                    g = sorted(x for x in got[tool].get(key, []) if x != "ccpp_types.mod")
                    if g != want[key] and not r:
                        extra, miss = [x for x in g if x not in want[key]], [x for x in want[key] if x not in g]
                        r = ("list", f"{name} for {tool}: unexpected {extra}, missing {miss}, "
                             f"repeated {sorted({x for x in g if g.count(x) > 1})}")
            gone = [x for x in want["S"] + want["C"] + want["A"] if not os.path.isfile(x)]
            if not r and gone:
                r = ("exists", f"listed, but not there: {gone}")
        if not r:
            rows = p.expected_rows()
            h = Rows()
            h.feed(open(os.path.join(b, "CCPP_VARIABLES.html")).read())
            own = [x for x in h.rows if x and x[0] in rows]
            for x in own:
                if rows[x[0]][1] == "":
                    x[1:2] = [""]                    # no long name in the metadata: any text will do
                if x != rows[x[0]] and not r:
                    r = ("html", f"row of {x[0]} is {x}, the metadata say {rows[x[0]]}")
            if not r and sorted(x[0] for x in own) != sorted(rows):
                r = ("htmlset", f"HTML table lists {sorted(x[0] for x in own)}, the host provides {sorted(rows)}")
        if not r:
            items, bad = latex_items(open(os.path.join(b, "CCPP_VARIABLES.tex")).read())
            if bad:
                r = ("tex", bad)
            else:
                must, may = {}, {}
                for n, s, e in t["reqs"]:
                    must.setdefault(n, set()).add(f"{s}_{e}")
                for f in t["pool"]:
                    for s in f["s"]:
                        for e, ns in s["ent"].items():
                            for n in ns:
                                may.setdefault(n, set()).add(f"{s['c']}_{e}")
                for n in rows:
                    it = items.get(n)
                    if it is None:
                        r = ("texset", f"LaTeX table does not list {n}")
                        break
                    g = [n] + [it.get(x) for x in ("long_name", "units", "rank", "type", "kind", "source", "local_name")]
                    if rows[n][1] == "":
                        g[1] = ""
                    if g != rows[n]:
                        r = ("texrow", f"LaTeX entry of {n} is {g}, the metadata say {rows[n]}")
                        break
                    q = [x for x in it["requested"] or [] if x != "NOT REQUESTED"]
                    if not must.get(n, set()) <= set(q) or not set(q) <= may.get(n, set()) or len(q) != len(set(q)):
                        r = ("request", f"{n} is requested by {sorted(must.get(n, set()))} (all schemes known: {sorted(may.get(n, set()))}), "
                             f"the table says {it['requested']}")
                        break
    if r:
        c.violation(f"b{idx}:{r[0]}", r[1], t)
    key = "wrong" if r else (t["opt"]["flaw"] and "missing dependency") or "listed"
    c.cov[key] = c.cov.get(key, 0) + 1
    if not r or not os.environ.get("KEEP"):
        shutil.rmtree(d, True)


def check(c):
    n = 9600 if c.thorough else 1200
    nw = NCPU
    rs = pmap(lambda k: c.tlc("BuildLists", CFG, simulate=n // nw, depth=200, seed=c.seed * 1019 + k), list(range(nw)))
    ts = [t for r in rs for t in r.lines]
    if len(ts) < n * 0.8:
        raise HarnessError(f"only {len(ts)} projects")

    def work(k):
        fs = ForkSrv(c)
        try:
            for i in range(k, len(ts), nw):
                judge(c, i, ts[i], random.Random(c.seed * 7919 + i), fs)
                if not c.samples:
                    c.samples.append(ts[i])
        finally:
            fs.close()
    fork_map(c, work, list(range(nw)))
    c.cov["projects"] = len(ts)


if __name__ == "__main__":
    main(check, "C28")
