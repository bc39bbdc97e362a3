"""Mini CCPP projects for capgen: from an abstract description (suites, schemes
with arguments, host variables) write metadata, Fortran and suite files, run
the real generator, compile what it wrote with a driver and talk to it."""
import os, re, shutil, sys, glob
from vlib import *

PHASES = {"register": "register", "init": "init", "ts_init": "timestep_init",
          "run": "run", "ts_final": "timestep_final", "final": "finalize"}
# accepted spellings of entry point suffixes per phase
SPELL = {"register": ["register"], "init": ["init", "initialize"],
         "ts_init": ["timestep_init", "timestep_initialize"],
         "run": ["run"], "ts_final": ["timestep_final", "timestep_finalize"],
         "final": ["final", "finalize"]}
API = {"register": "register", "init": "initialize", "ts_init": "timestep_initial",
       "run": "run", "ts_final": "timestep_final", "final": "finalize"}

VLAB = """module vlab
  implicit none
  public
  character(len=64) :: vl_failname = ' '
  integer :: vl_failcode = 0
  character(len=64) :: vl_stmt(64) = ' '
  integer :: vl_n = 0
contains
  subroutine vl_event(name)
    character(len=*), intent(in) :: name
    write(*,'(2a)') 'E ', name
  end subroutine vl_event
  logical function vl_fail(name)
    character(len=*), intent(in) :: name
    vl_fail = trim(name) == trim(vl_failname)
  end function vl_fail
  subroutine vl_r0(name, v)
    character(len=*), intent(in) :: name
    real(kind=8), intent(in) :: v
    write(*,'(2a,1x,es24.16)') 'V ', name, v
  end subroutine vl_r0
  subroutine vl_rn(name, lb, v)
    character(len=*), intent(in) :: name
    integer, intent(in) :: lb
    real(kind=8), intent(in) :: v(:)
    integer :: i
    write(*,'(2a)',advance='no') 'V ', name
    do i = 1, size(v)
       write(*,'(1x,es24.16)',advance='no') v(i)
    end do
    write(*,*)
  end subroutine vl_rn
  subroutine vl_i0(name, v)
    character(len=*), intent(in) :: name
    integer, intent(in) :: v
    write(*,'(2a,1x,i0)') 'V ', name, v
  end subroutine vl_i0
  subroutine vl_in(name, v)
    character(len=*), intent(in) :: name
    integer, intent(in) :: v(:)
    integer :: i
    write(*,'(2a)',advance='no') 'V ', name
    do i = 1, size(v)
       write(*,'(1x,i0)',advance='no') v(i)
    end do
    write(*,*)
  end subroutine vl_in
  subroutine vl_l0(name, v)
    character(len=*), intent(in) :: name
    logical, intent(in) :: v
    write(*,'(2a,1x,l1)') 'V ', name, v
  end subroutine vl_l0
  subroutine vl_s0(name, v)
    character(len=*), intent(in) :: name
    character(len=*), intent(in) :: v
    write(*,'(5a)') 'V ', name, ' [', trim(v), ']'
  end subroutine vl_s0
  subroutine vl_absent(name)
    character(len=*), intent(in) :: name
    write(*,'(3a)') 'V ', name, ' absent'
  end subroutine vl_absent
end module vlab
"""


class A:
    """One argument / variable."""
    def __init__(self, name, std, units="1", dims=(), type="real", kind="kind_phys",
                 intent=None, code=None, fkind=None, log=True, ftype=None, **props):
        self.name, self.std, self.units = name, std, units
        self.dims = tuple(dims)
        self.type = type
        self.kind = kind if type == "real" else (kind if type == "character" and kind != "kind_phys" else
                                                 (kind if kind not in ("kind_phys",) else None))
        self.intent = intent
        self.code = code          # Fortran statements assigning it in the scheme
        self.props = props        # optional, active, protected, top_at_one, ...
        self.log = log
        self.ftype = ftype

    def meta(self, with_intent=True):
        L = [f"[ {self.name} ]", f"  standard_name = {self.std}", f"  units = {self.units}",
             f"  dimensions = ({','.join(self.dims)})", f"  type = {self.type}"]
        if self.kind:
            L.append(f"  kind = {self.kind}")
        if self.intent and with_intent:
            L.append(f"  intent = {self.intent}")
        for k, v in self.props.items():
            L.append(f"  {k} = {v}")
        return "\n".join(L) + "\n"

    def ftypedecl(self):
        if self.ftype:
            return self.ftype
        if self.type == "real":
            k = self.kind
            if k is None:
                return "real"
            if k.isdigit() or re.match(r"^[a-z]\w*$", k, re.I):
                return f"real(kind={k})"
            return f"real({k})"
        if self.type == "integer":
            return f"integer(kind={self.kind})" if self.kind else "integer"
        if self.type == "logical":
            return f"logical(kind={self.kind})" if self.kind else "logical"
        if self.type == "character":
            return f"character({self.kind})"
        return f"type({self.type})"

    def dummy(self):
        d = self.ftypedecl() + f", intent({self.intent})"
        if str(self.props.get("optional", "")).lower() in ("true", ".true."):
            d += ", optional"
        if str(self.props.get("allocatable", "")).lower() == "true":
            d += ", allocatable"
        sh = "(" + ",".join(":" for _ in self.dims) + ")" if self.dims else ""
        return f"{d} :: {self.name}{sh}"

    def logstmt(self, tag, expr=None):
        n = f"'{tag} {self.name}'"
        e = expr or self.name
        if self.type == "real":
            if not self.dims:
                return f"call vl_r0({n}, real({e}, 8))"
            return (f"call vl_rn({n}, 1, reshape(real({e}, 8), (/ size({e}) /)))")
        if self.type == "integer":
            if not self.dims:
                return f"call vl_i0({n}, int({e}))"
            return f"call vl_in({n}, reshape(int({e}), (/ size({e}) /)))"
        if self.type == "logical":
            return f"call vl_l0({n}, logical({e}))" if not self.dims else ""
        if self.type == "character":
            return f"call vl_s0({n}, {e})" if not self.dims else ""
        return ""


def errargs():
    return [A("errmsg", "ccpp_error_message", "none", (), "character", "len=512", "out", log=False),
            A("errflg", "ccpp_error_code", "1", (), "integer", None, "out", log=False)]


class Scheme:
    def __init__(self, name, phases, use="", fail_late=True, process=None, table_props=None, module=None):
        """phases: {phase key (optionally 'init:initialize' to select the
        spelling): [A, ...]}"""
        self.name = name
        self.phases = {}
        self.spell = {}
        for k, v in phases.items():
            p, _, sp = k.partition(":")
            self.phases[p] = v
            self.spell[p] = sp or SPELL[p][0]
        self.use = use
        self.fail_late = fail_late
        self.process = process      # a name, or {phase: name}
        self.module = module        # name of the Fortran module
        self.table_props = table_props or {}

    def meta(self):
        out = ["[ccpp-table-properties]", f"  name = {self.name}", "  type = scheme"]
        for k, v in self.table_props.items():
            out.append(f"  {k} = {v}")
        for p, args in self.phases.items():
            out += ["[ccpp-arg-table]", f"  name = {self.name}_{self.spell[p]}", "  type = scheme"]
            pr = self.process.get(p) if isinstance(self.process, dict) else self.process
            if pr:
                out.append(f"  process = {pr}")
            if self.module:
                out.append(f"  module = {self.module}")
            out.append("".join(a.meta() for a in args + errargs()).rstrip())
        return "\n".join(out) + "\n"

    def fortran(self):
        mod = self.module or self.name
        L = [f"module {mod}", "  use ccpp_kinds", "  use vlab"]
        if self.use:
            L += ["  " + u for u in self.use.split(";")]
        L += ["  implicit none", "  private"]
        for p in self.phases:
            L.append(f"  public :: {self.name}_{self.spell[p]}")
        L.append("contains")
        for p, args in self.phases.items():
            sub = f"{self.name}_{self.spell[p]}"
            al = args + errargs()
            L += [f"!> \\section arg_table_{sub}  Argument Table",
                  f"!! \\htmlinclude arg_table_{sub}.html", "!!",
                  f"  subroutine {sub}(" + ", &\n      ".join(a.name for a in al) + ")"]
            for a in al:
                L.append("    " + a.dummy())
            L += ["    integer :: vl_i, vl_j, vl_k"]
            L += ["    errmsg = ''", "    errflg = 0"]
            tag = f"{self.name}:{p}"
            L += [f"    call vl_event('{tag}')", "    vl_n = vl_n + 1"]
            for a in args:
                if a.log:
                    st = a.logstmt(tag) if a.intent != "out" or a.log == "size" else ""
                    if a.log == "size" and a.dims:
                        st = f"call vl_i0('{tag} {a.name}', size({a.name}))"
                    elif a.log == "size":
                        st = ""
                    if a.props.get("optional"):
                        st = st or f"call vl_event('{tag} {a.name} present')"
                        L += [f"    if (present({a.name})) then", "      " + st, "    else",
                              f"      call vl_absent('{tag} {a.name}')", "    end if"]
                    elif st:
                        L.append("    " + st)
            fail = [f"    if (vl_fail('{tag}')) then", "      errflg = vl_failcode",
                    f"      errmsg = 'failed in {tag}'", "      return", "    end if"]
            if not self.fail_late:
                L += fail
            for a in args:
                if a.code:
                    if a.props.get("optional"):
                        L.append(f"    if (present({a.name})) then")
                    L += ["    " + s for s in a.code.split("\n")]
                    if a.props.get("optional"):
                        L.append("    end if")
            if self.fail_late:
                L += fail
            L.append(f"  end subroutine {sub}")
        L.append(f"end module {mod}")
        return "\n".join(L) + "\n"


def suite_xml(s):
    """s: {name, groups:[{name, items:[str | {loop, items}]}]}"""
    def items(its, ind):
        o = []
        for it in its:
            if isinstance(it, str):
                o.append(f"{ind}<scheme>{it}</scheme>")
            else:
                o.append(f"{ind}<subcycle loop=\"{it['loop']}\">")
                o += items(it["items"], ind + "  ")
                o.append(f"{ind}</subcycle>")
        return o
    L = ['<?xml version="1.0" encoding="UTF-8"?>', f'<suite name="{s["name"]}" version="1.0">']
    for g in s["groups"]:
        L.append(f'  <group name="{g["name"]}">')
        L += items(g["items"], "    ")
        L.append("  </group>")
    L.append("</suite>")
    return "\n".join(L) + "\n"


class HostVar(A):
    def __init__(self, name, std, units="1", dims=(), type="real", kind="kind_phys", shape=None,
                 init=None, decl=None, **props):
        super().__init__(name, std, units, dims, type, kind, None, **props)
        self.shape = shape        # list of Fortran extents, e.g. ["ncols", "nlev"]
        self.init = init
        self.decl = decl

    def declare(self):
        if self.decl is not None:
            return self.decl
        t = self.ftypedecl()
        sh = "(" + ",".join(self.shape) + ")" if self.shape else ""
        ini = f" = {self.init}" if self.init is not None and not self.shape else ""
        par = ""
        return f"{t}{par}, target :: {self.name}{sh}{ini}"


class Project:
    """ncols/nlev are Fortran parameters of the host module."""
    def __init__(self, d, suites, schemes, hostvars=(), host="vhost", ncols=4, nlev=3,
                 hostuse="", extra_types="", extra_meta="", kinds=None, driver_extra="",
                 basic=True):
        self.d = d
        self.suites, self.schemes, self.hostvars = suites, schemes, list(hostvars)
        self.host = host
        self.ncols, self.nlev = ncols, nlev
        self.extra_types, self.extra_meta = extra_types, extra_meta
        self.kinds = kinds or []
        self.driver_extra = driver_extra
        self.hostuse = hostuse
        self.basic = basic
        os.makedirs(d, exist_ok=True)

    # ------------------------------------------------------------- inputs
    def host_meta(self):
        return f"""[ccpp-table-properties]
  name = {self.host}
  type = host
[ccpp-arg-table]
  name = {self.host}
  type = host
[ col_start ]
  standard_name = horizontal_loop_begin
  type = integer
  units = count
  dimensions = ()
  protected = True
[ col_end ]
  standard_name = horizontal_loop_end
  type = integer
  units = count
  dimensions = ()
  protected = True
[ errmsg ]
  standard_name = ccpp_error_message
  units = none
  dimensions = ()
  type = character
  kind = len=512
[ errflg ]
  standard_name = ccpp_error_code
  units = 1
  dimensions = ()
  type = integer
"""

    def base_vars(self):
        if not self.basic:
            return []
        return [HostVar("ncols", "horizontal_dimension", "count", (), "integer", None,
                        decl=f"integer, parameter :: ncols = {self.ncols}", protected="True"),
                HostVar("nlev", "vertical_layer_dimension", "count", (), "integer", None,
                        decl=f"integer, parameter :: nlev = {self.nlev}", protected="True"),
                HostVar("nlevp", "vertical_interface_dimension", "count", (), "integer", None,
                        decl=f"integer, parameter :: nlevp = {self.nlev + 1}", protected="True")]

    def mod_meta(self):
        return (self.extra_meta + f"""[ccpp-table-properties]
  name = {self.host}_mod
  type = module
[ccpp-arg-table]
  name = {self.host}_mod
  type = module
""" + "".join(v.meta(False) for v in self.base_vars() + self.hostvars))

    def mod_f90(self):
        L = [f"module {self.host}_mod", "  use ccpp_kinds"]
        if self.hostuse:
            L.append("  " + self.hostuse)
        L += ["  implicit none", "  public"]
        if self.extra_types:
            L.append(self.extra_types)
        L += [f"!> \\section arg_table_{self.host}_mod  Argument Table",
              f"!! \\htmlinclude arg_table_{self.host}_mod.html", "!!"]
        for v in self.base_vars() + self.hostvars:
            if v.declare():
                L.append("  " + v.declare())
        L.append(f"end module {self.host}_mod")
        return "\n".join(L) + "\n"

    def host_f90(self):
        """Only the host-table part; the driver program is separate text with
        the same name (it must contain the table marker)."""
        sz = max(1, len(self.suites))
        L = [f"module {self.host}", f"  use {self.host}_mod", "  use vlab", "  implicit none", "  public",
             f"!> \\section arg_table_{self.host}  Argument Table",
             f"!! \\htmlinclude arg_table_{self.host}.html", "!!",
             "  integer :: col_start", "  integer :: col_end",
             "  character(len=512) :: errmsg", "  integer :: errflg",
             f"end module {self.host}"]
        return "\n".join(L) + "\n"

    def driver(self):
        h = self.host
        names = [f"{h}_ccpp_physics_{x}" for x in API.values()]
        L = ["program vdriver", f"  use {h}, only: col_start, col_end, errmsg, errflg",
             f"  use {h}_mod", "  use vlab", "  use ccpp_kinds",
             f"  use {h}_ccpp_cap",
             "#ifdef _OPENMP", "  use omp_lib, only: omp_get_thread_num", "#endif",
             "  implicit none",
             "  character(len=1024) :: line, op, a1, a2",
             "  character(len=128), allocatable :: sl(:)",
             "  real(kind=8) :: vl_rv(200)", "  integer :: vl_m",
             "  integer :: ios, n, i, j, k", "  integer :: vthread = 0",
             "  logical :: l1, l2",
             "  logical, allocatable :: b1, b2, b3",
             "  col_start = 1", f"  col_end = {self.ncols}",
             "  call vl_setup()",
             "  do", "    read(*,'(a)',iostat=ios) line", "    if (ios /= 0) exit",
             "    n = index(line, ' ')", "    op = line(:n-1)", "    line = adjustl(line(n+1:))",
             "    n = index(line, ' ')", "    a1 = line(:n-1)", "    a2 = adjustl(line(n+1:))",
             "    if (a1 == '_') a1 = ' '",
             "    if (a2 == '_') a2 = ' '",
             "    select case (trim(op))"]
        for k, x in API.items():
            extra = ", trim(a2)" if k == "run" else ""
            L += [f"    case ('{k}')", "      errflg = -99", "      errmsg = 'unset'",
                  "#ifdef _OPENMP",
                  "!$omp parallel num_threads(4) if(vthread > 0)",
                  "      if (omp_get_thread_num() == vthread) then",
                  f"      call vc_{k}(trim(a1){extra})",
                  "      end if",
                  "!$omp end parallel",
                  "#else",
                  f"      call vc_{k}(trim(a1){extra})",
                  "#endif",
                  "      write(*,'(a,i0,3a)') '=>', errflg, ' [', trim(errmsg), ']'"]
        L += ["    case ('fail')", "      vl_failname = a1", "      read(a2,*) vl_failcode", "      write(*,'(a)') '=>ok'",
              "    case ('cols')", "      read(a1,*) col_start", "      read(a2,*) col_end", "      write(*,'(a)') '=>ok'",
              "    case ('dump')", "      call vl_dump()", "      write(*,'(a)') '=>ok'",
              "    case ('suites')", "      call ccpp_physics_suite_list(sl)", "      call plist()",
              "    case ('parts')", "      errflg = -99", "      call ccpp_physics_suite_part_list(trim(a1), sl, errmsg, errflg)", "      call plist()",
              "    case ('schemes')", "      errflg = -99", "      call ccpp_physics_suite_schemes(trim(a1), sl, errmsg, errflg)", "      call plist()",
              "    case ('vars')", "      errflg = -99",
              "      select case (trim(a2))",
              "      case ('all')", "        call ccpp_physics_suite_variables(trim(a1), sl, errmsg, errflg)",
              "      case ('in')", "        call ccpp_physics_suite_variables(trim(a1), sl, errmsg, errflg, input_vars=.true., output_vars=.false.)",
              "      case ('out')", "        call ccpp_physics_suite_variables(trim(a1), sl, errmsg, errflg, input_vars=.false., output_vars=.true.)",
              "      case ('none')", "        call ccpp_physics_suite_variables(trim(a1), sl, errmsg, errflg, input_vars=.false., output_vars=.false.)",
              "      case ('inonly')", "        call ccpp_physics_suite_variables(trim(a1), sl, errmsg, errflg, input_vars=.true.)",
              "      case ('outonly')", "        call ccpp_physics_suite_variables(trim(a1), sl, errmsg, errflg, output_vars=.true.)",
              "      case ('noin')", "        call ccpp_physics_suite_variables(trim(a1), sl, errmsg, errflg, input_vars=.false.)",
              "      case ('noout')", "        call ccpp_physics_suite_variables(trim(a1), sl, errmsg, errflg, output_vars=.false.)",
              "      end select", "      call plist()",
              "    case ('q')", "      errflg = -99",
              "      if (allocated(b1)) deallocate(b1)", "      if (allocated(b2)) deallocate(b2)", "      if (allocated(b3)) deallocate(b3)",
              "      if (a2(1:1) /= '-') b1 = a2(1:1) == 't'", "      if (a2(2:2) /= '-') b2 = a2(2:2) == 't'",
              "      if (a2(3:3) /= '-') b3 = a2(3:3) == 't'",
              "      call ccpp_physics_suite_variables(trim(a1), sl, errmsg, errflg, input_vars=b1, output_vars=b2, struct_elements=b3)",
              "      call plist()",
              "    case ('init_host')", "      call vl_setup()", "      write(*,'(a)') '=>ok'",
              self.driver_extra_cases(),
              "    case default", "      write(*,'(a)') '=>unknown command'",
              "    end select", "    flush(6)", "  end do", "contains",
              "  subroutine plist()",
              "    write(*,'(a)',advance='no') '=>'",
              "    write(*,'(i0,a)',advance='no') errflg, ' |'",
              "    if (allocated(sl)) then",
              "      do i = 1, size(sl)", "        write(*,'(2a)',advance='no') trim(sl(i)), '|'", "      end do",
              "      deallocate(sl)",
              "    end if",
              "    write(*,*)", "    errflg = 0", "  end subroutine plist"]
        for k, x in API.items():
            extra = ", part" if k == "run" else ""
            L += [f"  subroutine vc_{k}(suite{extra})", "    character(len=*), intent(in) :: suite" + extra,
                  self.call_stmt(k, x), f"  end subroutine vc_{k}"]
        L += ["  subroutine vl_setup()"]
        for v in self.hostvars:
            if v.init is not None and v.shape:
                L += ["    " + s for s in v.init.split("\n")]
            elif v.init is not None:
                L.append(f"    {v.name} = {v.init}")
        L += ["  end subroutine vl_setup", "  subroutine vl_dump()"]
        for v in self.hostvars:
            st = v.logstmt("host") if v.log else ""
            if st:
                L.append("    " + st)
        L += self.dumps
        L += ["  end subroutine vl_dump", "end program vdriver"]
        return "\n".join(L) + "\n"

    dumps = ()
    call_args = None   # optionally {phase: "keyword argument list"}

    def driver_extra_cases(self):
        return self.driver_extra or "    case ('nop')\n      write(*,'(a)') '=>ok'"

    def call_stmt(self, k, x):
        args = {"suite_name": "suite"}
        if k == "run":
            args["suite_part"] = "part"
        sig = self.api_args.get(k)
        for a in sig:
            if a not in args:
                args[a] = a
        return (f"    call {self.host}_ccpp_physics_{x}(" +
                ", ".join(f"{n}={v}" for n, v in args.items() if n in sig) + ")")

    # ------------------------------------------------------------ actions
    def write(self):
        w = self._w
        w(f"{self.host}.meta", self.host_meta())
        w(f"{self.host}.F90", self.host_f90())
        w(f"{self.host}_mod.meta", self.mod_meta())
        w(f"{self.host}_mod.F90", self.mod_f90())
        w("vlab.F90", VLAB)
        for s in self.schemes:
            w(f"{s.name}.meta", s.meta())
            w(f"{s.name}.F90", s.fortran())
        for s in self.suites:
            w(f"suite_{s['name']}.xml", suite_xml(s))

    def _w(self, f, text):
        with open(os.path.join(self.d, f), "w") as h:
            h.write(text)

    def gen_cmd(self, out="out", extra=(), hosts=None, schemes=None, suites=None):
        hosts = hosts or [f"{self.host}_mod.meta", f"{self.host}.meta"]
        schemes = schemes or [f"{s.name}.meta" for s in self.schemes]
        suites = suites or [f"suite_{s['name']}.xml" for s in self.suites]
        cmd = [PY, f"{REPO}/scripts/ccpp_capgen.py", "--host-files", ",".join(hosts),
               "--scheme-files", ",".join(schemes), "--suites", ",".join(suites),
               "--host-name", self.host, "--output-root", os.path.join(self.d, out)]
        for k in self.kinds:
            cmd += ["--kind-type", k]
        return cmd + list(extra)

    def generate(self, out="out", extra=(), hashseed="0", timeout=120, **kw):
        return run(self.gen_cmd(out, extra, **kw), cwd=self.d, timeout=timeout,
                   env=py_env(hashseed=hashseed))

    def compile(self, out="out", flags=("-g", "-fcheck=all,no-recursion"), exe="vdrv"):
        """Compile framework sources, host, schemes, generated caps, driver."""
        od = os.path.join(self.d, out)
        gen = sorted(glob.glob(os.path.join(od, "**", "*.F90"), recursive=True))
        gen = [g for g in gen if not os.path.basename(g).startswith("ccpp_track")]
        fw = [f"{REPO}/src/ccpp_hashable.F90", f"{REPO}/src/ccpp_hash_table.F90",
              f"{REPO}/src/ccpp_constituent_prop_mod.F90"]
        have = {os.path.basename(g) for g in gen}
        fw = [f for f in fw if os.path.basename(f) not in have]
        mine = [os.path.join(self.d, f) for f in
                ["vlab.F90", f"{self.host}_mod.F90", f"{self.host}.F90"] +
                [s.name + ".F90" for s in self.schemes]]
        self.api_args = api_args(gen, self.host)
        if self.api_args is None:
            return 1, "generated host cap lacks the physics entry points"
        self._w("vdriver.F90", self.driver())
        files = order_files(fw + mine + gen + [os.path.join(self.d, "vdriver.F90")])
        rc, o = gfortran(list(flags) + ["-o", exe] + files, self.d)
        if rc != 0:
            # put the first errors first
            blocks = re.split(r"\n(?=\S+:\d+:\d+:)", o)
            err = [b for b in blocks if "Error:" in b and "Fatal Error" not in b]
            o = "\n".join(err[:3]) or o
            o = o[:1500]
        return rc, o

    def exe(self, exe="vdrv"):
        return os.path.join(self.d, exe)


def order_files(files):
    """Order Fortran files by module dependencies."""
    mods, uses = {}, {}
    for f in files:
        with open(f, errors="replace") as h:
            t = h.read()
        for m in re.findall(r"^\s*module\s+(\w+)\s*$", t, re.I | re.M):
            if m.lower() != "procedure":
                mods[m.lower()] = f
        uses[f] = [u.lower() for u in re.findall(r"^\s*use\s*(?:,\s*\w+\s*::)?\s*(\w+)", t, re.I | re.M)]
    done, res = set(), []

    def visit(f, stack=()):
        if f in done or f in stack:
            return
        for u in uses[f]:
            g = mods.get(u)
            if g and g != f:
                visit(g, stack + (f,))
        done.add(f)
        res.append(f)
    for f in files:
        visit(f)
    return res


def api_args(gen, host):
    """Dummy argument names of the host API routines of the generated cap."""
    r = {}
    for g in gen:
        t = open(g, errors="replace").read()
        t = re.sub(r"&\s*\n\s*&?", " ", t)
        for k, x in API.items():
            m = re.search(rf"^\s*subroutine\s+{host}_ccpp_physics_{x}\s*\(([^)]*)\)", t, re.I | re.M)
            if m:
                r[k] = [a.strip().lower() for a in m.group(1).split(",") if a.strip()]
    return r if len(r) == len(API) else None


class Session:
    """A running driver. cmd() returns (events, values, answer)."""
    def __init__(self, exe, cwd, timeout=20):
        self.exe, self.cwd, self.timeout = exe, cwd, timeout
        self.p = None
        self.hist = []

    def start(self):
        from lts import PipeSut
        self.sut = PipeSut([self.exe], lambda a: a, None, cwd=self.cwd, timeout=self.timeout)
        self.sut.start()
        self.hist = []
        return self

    def stop(self):
        self.sut.stop()

    def cmd(self, c):
        from lts import SutDied
        self.hist.append(c)
        ev, vals = [], []
        try:
            self.sut.p.stdin.write((c + "\n").encode())
            while True:
                line = self.sut._line()
                if line.startswith("=>"):
                    ans = line[2:].strip()
                    break
                if line.startswith("E "):
                    ev.append(line[2:].strip())
                elif line.startswith("V "):
                    vals.append(line[2:].split())
                else:
                    vals.append(["?", line])
                    if "Error" in line or "error" in line or "SIGSEGV" in line or len(vals) > 5000:
                        more = []
                        try:
                            while True:
                                more.append(self.sut._line())
                                if len(more) > 5:
                                    break
                        except SutDied:
                            pass
                        raise SutDied(line + " | " + " | ".join(more)[:600])
        except OSError as e:
            raise SutDied(str(e))
        self.hist.append(f"   {ev} {vals} => {ans}"[:600])
        return ev, vals, ans
