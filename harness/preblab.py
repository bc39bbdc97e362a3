"""Mini CCPP projects for prebuild (the static API): from suites, schemes and
host variables write metadata, Fortran, suite files and the configuration, run
the real generator, compile what it wrote with a driver and talk to it."""
from capgenlab import *
from capgenlab import Session

PSTAGE = {"init": "init", "ts_init": "timestep_init", "run": "run", "ts_final": "timestep_finalize",
          "final": "finalize"}

MPI_STUB = """module mpi_f08
  type, public :: MPI_Comm
    integer :: mpi_val = 0
  end type MPI_Comm
end module mpi_f08
"""
CONFIG = """HOST_MODEL_IDENTIFIER = "VM"
VARIABLE_DEFINITION_FILES = {vfiles}
TYPEDEFS_NEW_METADATA = {typedefs}
SCHEME_FILES = {sfiles}
DEFAULT_BUILD_DIR = 'build'
TYPEDEFS_MAKEFILE   = '{{build_dir}}/CCPP_TYPEDEFS.mk'
TYPEDEFS_CMAKEFILE  = '{{build_dir}}/CCPP_TYPEDEFS.cmake'
TYPEDEFS_SOURCEFILE = '{{build_dir}}/CCPP_TYPEDEFS.sh'
SCHEMES_MAKEFILE   = '{{build_dir}}/CCPP_SCHEMES.mk'
SCHEMES_CMAKEFILE  = '{{build_dir}}/CCPP_SCHEMES.cmake'
SCHEMES_SOURCEFILE = '{{build_dir}}/CCPP_SCHEMES.sh'
CAPS_MAKEFILE   = '{{build_dir}}/CCPP_CAPS.mk'
CAPS_CMAKEFILE  = '{{build_dir}}/CCPP_CAPS.cmake'
CAPS_SOURCEFILE = '{{build_dir}}/CCPP_CAPS.sh'
CAPS_DIR = '{caps}'
SUITES_DIR = '{suites}'
OPTIONAL_ARGUMENTS = {{}}
STATIC_API_DIR = '{api}'
STATIC_API_CMAKEFILE  = '{{build_dir}}/CCPP_API.cmake'
STATIC_API_SOURCEFILE = '{{build_dir}}/CCPP_API.sh'
METADATA_HTML_OUTPUT_DIR = '{{build_dir}}'
HTML_VARTABLE_FILE = '{{build_dir}}/CCPP_VARIABLES.html'
LATEX_VARTABLE_FILE = '{{build_dir}}/CCPP_VARIABLES.tex'
"""


def static_suite_xml(s):
    """s: {name, groups:[{name, subcycles:[{loop, schemes}]}]}"""
    L = ['<?xml version="1.0" encoding="UTF-8"?>', f'<suite name="{s["name"]}" version="1">']
    for g in s["groups"]:
        L.append(f'  <group name="{g["name"]}">')
        for sc in g["subcycles"]:
            L.append(f'    <subcycle loop="{sc["loop"]}">')
            L += [f"      <scheme>{x}</scheme>" for x in sc["schemes"]]
            L.append("    </subcycle>")
        L.append("  </group>")
    L.append("</suite>")
    return "\n".join(L) + "\n"


class PreProject:
    """hostvars are module variables of module `hd`; ddts: {type name:
    (reference, [HostVar])} are types defined in it, the reference being the
    text that precedes their members."""
    kinds = ("kind_phys = 8", "kind_r4 = 4")

    def __init__(self, d, suites, schemes, hostvars=(), ddts=None, ninst=2, legacy=False, api_dir="{build_dir}",
                 caps_dir="{build_dir}", insts=None, driver_extra="", extra_meta="", namespace="", blocked=False):
        self.d, self.suites, self.schemes = d, suites, schemes
        self.hostvars, self.ddts = list(hostvars), dict(ddts or {})
        self.insts = insts or [1, 2]
        self.legacy, self.api_dir, self.caps_dir = legacy, api_dir, caps_dir
        self.driver_extra, self.extra_meta, self.namespace = driver_extra, extra_meta, namespace
        self.blocked = blocked
        os.makedirs(d, exist_ok=True)

    def _w(self, f, text):
        p = os.path.join(self.d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write(text)

    def kinds_files(self):
        names = [k.split()[0] for k in self.kinds]
        f = ["module ccpp_kinds", "  implicit none", "!> \\section arg_table_ccpp_kinds Argument Table",
             "!! \\htmlinclude ccpp_kinds.html", "!!"]
        f += [f"  integer, parameter :: {k}" for k in self.kinds] + ["end module ccpp_kinds"]
        m = "[ccpp-table-properties]\n  name = ccpp_kinds\n  type = module\n[ccpp-arg-table]\n  name = ccpp_kinds\n  type = module\n"
        for n in names:
            m += f"[{n}]\n  standard_name = {n}\n  units = none\n  dimensions = ()\n  type = integer\n"
        return "\n".join(f) + "\n", m

    def data_files(self):
        L = ["module hd", "  use ccpp_kinds", "  use ccpp_types, only: ccpp_t", "  implicit none", "  public"]
        m = ""
        for t, (ref, members) in self.ddts.items():
            L += [f"!> \\section arg_table_{t} Argument Table", f"!! \\htmlinclude {t}.html", "!!", f"  type {t}"]
            L += ["    " + v.declare().replace(", target", "") for v in members]
            L += [f"  end type {t}"]
            m += (f"[ccpp-table-properties]\n  name = {t}\n  type = ddt\n[ccpp-arg-table]\n  name = {t}\n  type = ddt\n" +
                  "".join(v.meta(False) for v in members))
        L += ["!> \\section arg_table_hd Argument Table", "!! \\htmlinclude hd.html", "!!"]
        L += [f"  type(ccpp_t), target :: cdata"]
        m += "[ccpp-table-properties]\n  name = hd\n  type = module\n[ccpp-arg-table]\n  name = hd\n  type = module\n"
        m += "[cdata]\n  standard_name = ccpp_t_instance\n  units = DDT\n  dimensions = ()\n  type = ccpp_t\n"
        for v in self.hostvars:
            if v.declare():
                L.append("  " + v.declare())
            m += v.meta(False)
        m += self.extra_meta
        L.append("end module hd")
        return "\n".join(L) + "\n", m

    def typedefs(self):
        t = {"ccpp_types": {"ccpp_t": "cdata", "MPI_Comm": "", "ccpp_types": ""}, "hd": {"hd": ""},
             "ccpp_kinds": {"ccpp_kinds": ""}}
        for k, (ref, _) in self.ddts.items():
            t["hd"][k] = ref
        return t

    def write(self):
        w = self._w
        f, m = self.kinds_files()
        w("ccpp_kinds.F90", f)
        w("ccpp_kinds.meta", m)
        f, m = self.data_files()
        w("hd.F90", f)
        w("hd.meta", m)
        w("vlab.F90", VLAB)
        w("mpi_f08.F90", MPI_STUB)
        for x in ("ccpp_types.F90", "ccpp_types.meta"):
            w(x, open(f"{REPO}/src/{x}").read())
        for s in self.schemes:
            w(f"{s.name}.meta", s.meta())
            w(f"{s.name}.F90", s.fortran().replace("\\htmlinclude arg_table_", "\\htmlinclude "))
        for s in self.suites:
            w(("suite_" if self.legacy else "") + s["name"] + ".xml", static_suite_xml(s))
        self.write_config()

    def write_config(self, name="vcfg.py"):
        self._w(name, CONFIG.format(vfiles=["ccpp_types.F90", "ccpp_kinds.F90", "hd.F90"],
                                    typedefs=repr(self.typedefs()), sfiles=[s.name + ".F90" for s in self.schemes],
                                    caps=self.caps_dir, api=self.api_dir, suites="."))

    def argv(self, build="build", suites=None, extra=(), config="vcfg.py"):
        a = ["--config", config, "--suites", ",".join(suites or [s["name"] for s in self.suites])]
        if build:
            a += ["--builddir", build]
        if self.namespace:
            a += ["--namespace", self.namespace]
        return a + list(extra)

    def generate(self, fs=None, build="build", extra=(), **kw):
        b = os.path.join(self.d, build)
        os.makedirs(b, exist_ok=True)
        for x in (self.caps_dir, self.api_dir):
            os.makedirs(os.path.join(self.d, x.format(build_dir=build)), exist_ok=True)
        av = self.argv(build, extra=extra, **kw)
        if fs:
            return fs.tool("ccpp_prebuild.py", av, self.d)
        return run([PY, f"{REPO}/scripts/ccpp_prebuild.py"] + av, cwd=self.d, timeout=120, env=py_env())

    def mk_list(self, build, name):
        t = open(os.path.join(self.d, build, name)).read()
        return re.findall(r'^\s*(/\S+?)\s*\\?$', t.replace("set(CAPS", "").replace("set(SCHEMES", ""), re.M)

    def compile(self, build="build", flags=("-g", "-fcheck=all,no-recursion"), exe="vdrv"):
        caps = sorted(glob.glob(os.path.join(self.d, self.caps_dir.format(build_dir=build), "ccpp_*_cap.F90")))
        api = sorted(glob.glob(os.path.join(self.d, self.api_dir.format(build_dir=build), "ccpp_static_api*.F90")))
        mine = [os.path.join(self.d, f) for f in ["mpi_f08.F90", "ccpp_types.F90", "ccpp_kinds.F90", "vlab.F90", "hd.F90"] +
                [s.name + ".F90" for s in self.schemes]]
        self._w("vdriver.F90", self.driver())
        files = order_files(mine + caps + api + [os.path.join(self.d, "vdriver.F90")])
        rc, o = gfortran(list(flags) + ["-o", exe] + files, self.d)
        if rc != 0:
            blocks = re.split(r"\n(?=\S+:\d+:\d+:)", o)
            err = [b for b in blocks if "Error:" in b and "Fatal Error" not in b]
            o = ("\n".join(err[:3]) or o)[:1500]
        return rc, o

    def exe(self, exe="vdrv"):
        return os.path.join(self.d, exe)

    dumps = ()

    def driver(self):
        n = max(self.insts)
        mod = "ccpp_static_api" + ("_" + self.namespace if self.namespace else "")
        L = ["program vdriver", "  use ccpp_types, only: ccpp_t", "  use hd", "  use vlab", "  use ccpp_kinds",
             f"  use {mod}", "  implicit none",
             "  character(len=1024) :: line, op, a1, a2, a3",
             "  real(kind=8) :: vl_rv(200)", "  integer :: vl_m", "  integer :: ios, n, i, j, k, ierr, inst",
             f"  type(ccpp_t), target :: cd({n})", "  type(ccpp_t), pointer :: pc",
             f"  do i = 1, {n}", "    cd(i)%ccpp_instance = i", "    cd(i)%blk_no = 1", "    cd(i)%thrd_no = 1",
             "    cd(i)%thrd_cnt = 1", "    cd(i)%chunk_no = 1", "  end do",
             "  do", "    read(*,'(a)',iostat=ios) line", "    if (ios /= 0) exit",
             "    n = index(line, ' ')", "    op = line(:n-1)", "    line = adjustl(line(n+1:))",
             "    n = index(line, ' ')", "    a1 = line(:n-1)", "    a2 = adjustl(line(n+1:))",
             "    n = index(a2, ' ')", "    a3 = adjustl(a2(n+1:))", "    a2 = a2(:n-1)",
             "    select case (trim(op))"]
        for k, x in PSTAGE.items():
            L += [f"    case ('{k}')", "      read(a3,*) inst", "      pc => cd(inst)", "      ierr = -99",
                  "      pc%errmsg = 'unset'", "      pc%errflg = 0",
                  "      if (trim(a2) == '_') then",
                  f"        call ccpp_physics_{x}(pc, suite_name=trim(a1), ierr=ierr)",
                  "      else",
                  f"        call ccpp_physics_{x}(pc, suite_name=trim(a1), group_name=trim(a2), ierr=ierr)",
                  "      end if",
                  "      write(*,'(a,i0,1x,i0,3a)') '=>', ierr, pc%errflg, ' [', trim(pc%errmsg), ']'"]
        L += ["    case ('fail')", "      vl_failname = a1", "      read(a2,*) vl_failcode", "      write(*,'(a)') '=>ok'",
              "    case ('blk')", "      read(a1,*) i", "      read(a2,*) j", "      cd(i)%blk_no = j", "      cd(i)%chunk_no = j",
              "      write(*,'(a)') '=>ok'",
              "    case ('thrd')", "      read(a1,*) i", "      read(a2,*) j", "      cd(i)%thrd_no = j", "      read(a3,*) j",
              "      cd(i)%thrd_cnt = j", "      write(*,'(a)') '=>ok'",
              "    case ('dump')"] + ["  " + x for x in self.dumps] + ["      write(*,'(a)') '=>ok'",
              self.driver_extra or "    case ('nop')\n      write(*,'(a)') '=>ok'",
              "    case default", "      write(*,'(a)') '=>unknown command'",
              "    end select", "    flush(6)", "  end do", "end program vdriver"]
        return "\n".join(L) + "\n"
