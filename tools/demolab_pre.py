"""A small project generated with prebuild from /repo, for the demonstrations of
planted bugs.  Everything happens in a scratch directory."""
import glob, os, shutil, subprocess, sys, tempfile
REPO = os.environ.get("DEMO_REPO", "/repo")
ENV = dict(os.environ, PYTHONPATH=f"{REPO}/scripts:{REPO}/scripts/parse_tools", PYTHONDONTWRITEBYTECODE="1")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def prop(name, std, typ="real", kind="kind_phys", dims="()", units="1", intent=None, **kw):
    s = f"[{name}]\n  standard_name = {std}\n  units = {units}\n  dimensions = {dims}\n  type = {typ}\n"
    if kind and typ in ("real", "character"):
        s += f"  kind = {kind}\n"
    for k, v in kw.items():
        s += f"  {k} = {v}\n"
    return s + (f"  intent = {intent}\n" if intent else "")


ERR = (prop("errmsg", "ccpp_error_message", "character", "len=*", units="none", intent="out") +
       prop("errflg", "ccpp_error_code", "integer", None, intent="out"))


def table(name, typ, sections):
    return (f"[ccpp-table-properties]\n  name = {name}\n  type = {typ}\n" +
            "".join(f"[ccpp-arg-table]\n  name = {n}\n  type = {typ}\n{b}" for n, b in sections))


CONFIG = """HOST_MODEL_IDENTIFIER = "D"
VARIABLE_DEFINITION_FILES = ['ccpp_types.F90', 'ccpp_kinds.F90', 'hd.F90']
TYPEDEFS_NEW_METADATA = {td}
SCHEME_FILES = {sf}
DEFAULT_BUILD_DIR = 'build'
TYPEDEFS_MAKEFILE = '{{build_dir}}/T.mk'
TYPEDEFS_CMAKEFILE = '{{build_dir}}/T.cmake'
TYPEDEFS_SOURCEFILE = '{{build_dir}}/T.sh'
SCHEMES_MAKEFILE = '{{build_dir}}/S.mk'
SCHEMES_CMAKEFILE = '{{build_dir}}/S.cmake'
SCHEMES_SOURCEFILE = '{{build_dir}}/S.sh'
CAPS_MAKEFILE = '{{build_dir}}/C.mk'
CAPS_CMAKEFILE = '{{build_dir}}/C.cmake'
CAPS_SOURCEFILE = '{{build_dir}}/C.sh'
CAPS_DIR = '{{build_dir}}'
SUITES_DIR = '.'
OPTIONAL_ARGUMENTS = {{}}
STATIC_API_DIR = '{{build_dir}}'
STATIC_API_CMAKEFILE = '{{build_dir}}/A.cmake'
STATIC_API_SOURCEFILE = '{{build_dir}}/A.sh'
METADATA_HTML_OUTPUT_DIR = '{{build_dir}}'
HTML_VARTABLE_FILE = '{{build_dir}}/V.html'
LATEX_VARTABLE_FILE = '{{build_dir}}/V.tex'
"""


class Lab:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="demo_")
        self.schemes, self.td = [], {"ccpp_types": {"ccpp_t": "cdata", "MPI_Comm": "", "ccpp_types": ""},
                                     "hd": {"hd": ""}, "ccpp_kinds": {"ccpp_kinds": ""}}
        self.write("mpi_f08.F90", "module mpi_f08\n  type, public :: MPI_Comm\n    integer :: mpi_val = 0\n  end type\nend module\n")
        for x in ("ccpp_types.F90", "ccpp_types.meta"):
            shutil.copy(f"{REPO}/src/{x}", self.d)
        self.write("ccpp_kinds.F90", "module ccpp_kinds\n  implicit none\n!> \\section arg_table_ccpp_kinds Argument Table\n"
                   "!! \\htmlinclude ccpp_kinds.html\n!!\n  integer, parameter :: kind_phys = 8\n  integer, parameter :: kind_r4 = 4\nend module ccpp_kinds\n")
        self.write("ccpp_kinds.meta", table("ccpp_kinds", "module", [("ccpp_kinds", prop("kind_phys", "kind_phys", "integer", units="none") +
                                                                      prop("kind_r4", "kind_r4", "integer", units="none"))]))

    def write(self, name, text):
        p = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return p

    def host(self, decls, md, ddts=()):
        """ddts: (type name, reference, declarations, metadata)"""
        f = "module hd\n  use ccpp_kinds\n  use ccpp_types, only: ccpp_t\n  implicit none\n  public\n"
        m = ""
        for t, ref, dc, tm in ddts:
            f += f"!> \\section arg_table_{t} Argument Table\n!! \\htmlinclude {t}.html\n!!\n  type {t}\n{dc}  end type {t}\n"
            m += table(t, "ddt", [(t, tm)])
            self.td["hd"][t] = ref
        f += ("!> \\section arg_table_hd Argument Table\n!! \\htmlinclude hd.html\n!!\n  type(ccpp_t), target :: cdata\n" +
              decls + "end module hd\n")
        m += table("hd", "module", [("hd", "[cdata]\n  standard_name = ccpp_t_instance\n  units = DDT\n  dimensions = ()\n  type = ccpp_t\n" + md)])
        self.write("hd.F90", f)
        self.write("hd.meta", m)

    def scheme(self, name, routines):
        f = f"module {name}\n  use ccpp_kinds\n  implicit none\n  private\n  public :: " + ", ".join(f"{name}_{p}" for p in routines) + "\ncontains\n"
        sec = []
        for p, (a, c, md) in routines.items():
            decl, _, code = c.partition("--\n")
            f += (f"!> \\section arg_table_{name}_{p} Argument Table\n!! \\htmlinclude {name}_{p}.html\n!!\n"
                  f"  subroutine {name}_{p}({', '.join(a + ['errmsg', 'errflg'])})\n{decl}"
                  "    character(len=*), intent(out) :: errmsg\n    integer, intent(out) :: errflg\n"
                  f"    errmsg = ''\n    errflg = 0\n{code}  end subroutine {name}_{p}\n")
            sec.append((f"{name}_{p}", md + ERR))
        self.write(f"{name}.F90", f + f"end module {name}\n")
        self.write(f"{name}.meta", table(name, "scheme", sec))
        self.schemes.append(name)

    def suite(self, name, body):
        self.write(f"{name}.xml", f'<?xml version="1.0" encoding="UTF-8"?>\n<suite name="{name}" version="1">\n{body}\n</suite>\n')

    def prebuild(self, suites, extra=(), build="build"):
        self.write("cfg.py", CONFIG.format(td=repr(self.td), sf=[s + ".F90" for s in self.schemes]))
        os.makedirs(f"{self.d}/{build}", exist_ok=True)
        r = subprocess.run([PY, f"{REPO}/scripts/ccpp_prebuild.py", "--config", "cfg.py", "--suites", ",".join(suites), "--builddir", build] +
                           list(extra), cwd=self.d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout

    def run(self, program, build="build"):
        self.write("driver.F90", program)
        import re
        files = [f"{self.d}/{x}" for x in ["mpi_f08.F90", "ccpp_types.F90", "ccpp_kinds.F90", "hd.F90"] + [s + ".F90" for s in self.schemes]]
        caps = glob.glob(f"{self.d}/{build}/ccpp_*_cap.F90")
        use = lambda p: sum(1 for q in caps if q != p and re.search(r"use\s+" + os.path.basename(q)[:-4] + r"\b", open(p).read()))
        files += sorted(caps, key=lambda p: (use(p), p)) + glob.glob(f"{self.d}/{build}/ccpp_static_api.F90") + [f"{self.d}/driver.F90"]
        r = subprocess.run(["gfortran", "-ffree-line-length-none", "-g", "-fcheck=all,no-recursion", "-o", "drv"] + files, cwd=self.d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return 99, r.stdout
        r = subprocess.run([f"{self.d}/drv"], cwd=self.d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
        return r.returncode, r.stdout

    def done(self, ok, text=""):
        shutil.rmtree(self.d, ignore_errors=True)
        print("ok" if ok else "FAILED: " + text[-1500:])
        sys.exit(0 if ok else 1)
