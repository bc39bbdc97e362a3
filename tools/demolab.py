"""A small project generated with capgen from /repo, for the demonstrations of
planted bugs.  Everything happens in a scratch directory."""
import os, shutil, subprocess, sys, tempfile
REPO = os.environ.get("DEMO_REPO", "/repo")
ENV = dict(os.environ, PYTHONPATH=f"{REPO}/scripts:{REPO}/scripts/parse_tools", PYTHONDONTWRITEBYTECODE="1")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def prop(name, std, typ="real", kind="kind_phys", dims="()", units="1", intent=None, **kw):
    s = f"[ {name} ]\n  standard_name = {std}\n  units = {units}\n  dimensions = {dims}\n  type = {typ}"
    s += f" | kind = {kind}\n" if kind and typ in ("real", "character") else "\n"
    for k, v in kw.items():
        s += f"  {k} = {v}\n"
    return s + (f"  intent = {intent}\n" if intent else "")


ERR = (prop("errmsg", "ccpp_error_message", "character", "len=512", units="none", intent="out") +
       prop("errflg", "ccpp_error_code", "integer", None, intent="out"))


def table(name, typ, body):
    return f"[ccpp-arg-table]\n  name = {name}\n  type = {typ}\n{body}"


class Lab:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="demo_")
        self.schemes, self.hosts, self.f90 = [], [], []

    def write(self, name, text):
        p = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return p

    def meta(self, name, typ, tables):
        return f"[ccpp-table-properties]\n  name = {name}\n  type = {typ}\n" + "".join(tables)

    def scheme(self, name, routines, module=""):
        """routines: {phase: (arg list incl. err, declarations+code, metadata)}"""
        m = [table(f"{name}_{p}", "scheme", md + ERR) for p, (a, c, md) in routines.items()]
        f = f"module {name}\n  use ccpp_kinds, only: kind_phys\n  implicit none\n{module}contains\n"
        for p, (a, c, md) in routines.items():
            al = ", ".join(a + ["errmsg", "errflg"])
            decl, _, code = c.partition("--\n")
            f += (f"!> \\section arg_table_{name}_{p} Argument Table\n!! \\htmlinclude {name}_{p}.html\n"
                  f"  subroutine {name}_{p}({al})\n{decl}"
                  "    character(len=512), intent(out) :: errmsg\n    integer, intent(out) :: errflg\n"
                  f"    errmsg = ''\n    errflg = 0\n{code}  end subroutine {name}_{p}\n")
        f += f"end module {name}\n"
        self.write(f"{name}.F90", f)
        self.schemes.append(self.write(f"{name}.meta", self.meta(name, "scheme", m)))
        self.f90.append(f"{name}.F90")

    def host(self, decls, md, name="mh", pre=""):
        """module <name>_mod with variables and host table <name> for the loop variables"""
        self.write(f"{name}_mod.F90", f"module {name}_mod\n  use ccpp_kinds, only: kind_phys\n  implicit none\n  public\n"
                   f"!> \\section arg_table_{name}_mod Argument Table\n!! \\htmlinclude {name}_mod.html\n{decls}{pre}end module {name}_mod\n")
        self.write(f"{name}_mod.meta", self.meta(f"{name}_mod", "module", [table(f"{name}_mod", "module", md)]))
        host = (prop("col_start", "horizontal_loop_begin", "integer", None, intent="in") +
                prop("col_end", "horizontal_loop_end", "integer", None, intent="in"))
        self.write(f"{name}.F90", f"module {name}_host\ncontains\n!> \\section arg_table_{name} Argument Table\n!! \\htmlinclude {name}.html\n"
                   f"  subroutine {name}()\n  end subroutine {name}\nend module {name}_host\n")
        self.write(f"{name}.meta", self.meta(name, "host", [table(name, "host", host + ERR.replace("  intent = out\n", ""))]))
        self.hosts += [f"{self.d}/{name}_mod.meta", f"{self.d}/{name}.meta"]
        self.f90.insert(0, f"{name}_mod.F90")
        self.name = name

    def suite(self, name, body):
        return self.write(f"suite_{name}.xml", f'<?xml version="1.0" encoding="UTF-8"?>\n<suite name="{name}" version="1.0">\n{body}\n</suite>\n')

    def capgen(self, suites, extra=(), out="out", env=None):
        cmd = [PY, f"{REPO}/scripts/ccpp_capgen.py", "--host-files", ",".join(self.hosts), "--scheme-files",
               ",".join(self.schemes), "--suites", ",".join(f"{self.d}/suite_{s}.xml" for s in suites),
               "--host-name", self.name, "--output-root", f"{self.d}/{out}", "--kind-type", "kind_phys=REAL64"] + list(extra)
        r = subprocess.run(cmd, cwd=self.d, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.suites = suites
        return r.returncode, r.stdout

    def run(self, driver, out="out", flags=("-g", "-fcheck=all,no-recursion")):
        self.write("driver.F90", driver)
        o = f"{self.d}/{out}"
        src = ["/src/ccpp_hashable.F90", "/src/ccpp_hash_table.F90", "/src/ccpp_constituent_prop_mod.F90"]
        files = [f"{o}/ccpp_kinds.F90"] + [REPO + s for s in src] + [f"{self.d}/{f}" for f in self.f90] + \
            [f"{o}/ccpp_{s}_cap.F90" for s in self.suites] + [f"{o}/{self.name}_ccpp_cap.F90", f"{self.d}/driver.F90"]
        r = subprocess.run(["gfortran", "-cpp", "-ffree-line-length-none", *flags, "-o", "demo.exe"] + files, cwd=self.d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return -1, r.stdout[-3000:]
        r = subprocess.run([f"{self.d}/demo.exe"], cwd=self.d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        return r.returncode, r.stdout

    def done(self, ok, msg=""):
        shutil.rmtree(self.d, True)
        print("ok" if ok else "FAILED: " + str(msg)[-3000:])
        sys.exit(0 if ok else 1)
