"""Projects with constituents: host, dynamic (register phase) and metadata
constituents of several suites, driven through the generated host API."""
from capgenlab import *

USE = "use ccpp_constituent_prop_mod, only: ccpp_constituent_properties_t"
HD, LD = "horizontal_dimension", "horizontal_loop_extent"
VD = "vertical_layer_dimension"
NC = "number_of_ccpp_constituents"
LNAME = "long name of "


def inst(obj, d):
    """instantiate call for a definition"""
    a = [f'std_name="{d["n"]}"', f'long_name="{LNAME}{d["n"]}"', f'units="{d["u"]}"',
         f'vertical_dim="{VD}"', f'advected={".true." if d["adv"] else ".false."}']
    if d["def"] >= 0:
        a.append(f'default_value={d["def"]}.0_kind_phys')
    return f"call {obj}%instantiate(" + ", &\n         ".join(a + ["errcode=errflg", "errmsg=errmsg"]) + ")"


def flag(d, kind="kind_phys"):
    p = {"advected" if d["adv"] else "constituent": "True"}
    if d["def"] >= 0:
        p["default_value"] = f"{d['def']}.0_{kind}"
    p["long_name"] = LNAME + d["n"]
    return p


def arg(a, i, phase):
    """a: {k, d|x, it, m, b}: constituent, tendency, all constituents (apply),
    snapshot of all, number, index"""
    k, h = a["k"], (LD if phase == "run" else HD)
    # some schemes compute with another kind
    r4 = dict(kind="kind_r4") if (a.get("b", 0) + i + len(phase)) % 4 == 1 else {}
    if k == "c":
        nm = f"c{i}"
        code = None
        if a["it"] != "in":
            e = f"{a['m']}*{nm}(vl_i,vl_j) + " if a["it"] == "inout" else ""
            code = (f"do vl_j = 1, size({nm},2)\n  do vl_i = 1, size({nm},1)\n"
                    f"    {nm}(vl_i,vl_j) = {e}{a['b']} + vl_i + 10*vl_j\n  end do\nend do")
        return [A(nm, a["d"]["n"], a["d"]["u"], (h, VD), intent=a["it"], code=code, **r4, **flag(a["d"], r4.get("kind", "kind_phys")))]
    if k == "t":
        nm = f"t{i}"
        code = None
        if a["it"] != "in":
            e = f"{nm}(vl_i,vl_j) + " if a["it"] == "inout" else ""
            code = (f"do vl_j = 1, size({nm},2)\n  do vl_i = 1, size({nm},1)\n"
                    f"    {nm}(vl_i,vl_j) = {e}{a['b']} + vl_i\n  end do\nend do")
        return [A(nm, "tendency_of_" + a["d"]["n"], a["d"]["u"] + " s-1", (h, VD), intent=a["it"], code=code,
                  constituent="True", **r4)]
    if k == "apply":
        return [A("tt", "ccpp_constituent_tendencies", "none", (h, VD, NC), intent="inout", log=False),
                A("cc", "ccpp_constituents", "none", (h, VD, NC), intent="inout", log=False,
                  code="cc = cc + tt\ntt = 0.0_kind_phys")]
    if k == "all":
        return [A("ca", "ccpp_constituents", "none", (h, VD, NC), intent="in")]
    if k == "n":
        return [A("nn", NC, "count", (), "integer", None, "in")]
    if k == "ix":
        return [A(f"ix{i}", "index_of_" + a["d"]["n"], "index", (), "integer", None, "in")]
    raise ValueError(k)


def scheme(s):
    ph = {}
    if s["reg"]:
        # the selector vl_sel(scheme) decides which constituents are returned
        alts = s["dyn"]
        L = ["select case (vl_sel(%d))" % s["id"]]
        for j, al in enumerate(alts):
            L += [f"case ({j + 1})", f"allocate(dync({len(al)}))"]
            for m, d in enumerate(al):
                L += ["if (errflg == 0) then", inst(f"dync({m + 1})", d), "end if"]
        L += ["case default", "allocate(dync(0))", "end select"]
        ph["register"] = [A("dync", "dynamic_constituents_of_" + s["name"], "none", (":",),
                            "ccpp_constituent_properties_t", None, "out", log=False, allocatable="True",
                            code="\n".join(L))]
    for p in ("init", "ts_init", "run"):
        if s[p]:
            args = []
            for i, a in enumerate(s[p]):
                args += arg(a, i + 1, p)
            ph[p] = args
    return Scheme(s["name"], ph, use=USE if s["reg"] else "")


SEL = "  integer :: vl_sel(20) = 1\ncontains\n  subroutine vl_event(name)"


class ConstProject(Project):
    def __init__(self, d, conf, ncols=4, nlev=2):
        su = []
        for s in conf["suites"]:
            names = [conf["schemes"][i - 1]["name"] for i in s["schemes"]]
            cut = s["cut"] or len(names)
            g = [{"name": "phys1", "items": names[:cut]}, {"name": "phys2", "items": names[cut:]}]
            su.append({"name": s["name"], "groups": [x for x in g if x["items"]]})
        hv = [HostVar("hostvar_" + v["n"], v["n"], v["u"], (HD, VD), shape=["ncols", "nlev"],
                      init=f"hostvar_{v['n']} = 7.0_kind_phys") for v in conf["hv"]]
        super().__init__(d, su, [scheme(s) for s in conf["schemes"]], hv, ncols=ncols, nlev=nlev,
                         kinds=["kind_phys=REAL64", "kind_r4=REAL32"])
        self.conf = conf
        self.driver_extra = self.extra()

    def write(self):
        super().write()
        self._w("vlab.F90", VLAB.replace("contains\n  subroutine vl_event(name)", SEL))

    def extra(self):
        h = self.host
        L = ["    case ('sel')", "      read(a1,*) i", "      read(a2,*) j", "      vl_sel(i) = j", "      write(*,'(a)') '=>ok'",
             "    case ('regc')",
             "      ! a1 = new/same, a2 = list of definitions",
             "      call host_consts(trim(a1), trim(a2))",
             "      errflg = -99", "      errmsg = 'unset'",
             f"      call {h}_ccpp_register_constituents(hc, errmsg=errmsg, errflg=errflg)",
             "      call ans()",
             "    case ('initc')", "      errflg = -99", "      errmsg = 'unset'", "      read(a1,*) i", "      read(a2,*) j",
             f"      call {h}_ccpp_initialize_constituents(i, j, errmsg=errmsg, errflg=errflg)",
             "      call ans()",
             "    case ('numc')", "      errflg = -99", "      i = -7",
             "      select case (a1(1:1))",
             f"      case ('t')\n        call {h}_ccpp_number_constituents(i, .true., errmsg=errmsg, errflg=errflg)",
             f"      case ('f')\n        call {h}_ccpp_number_constituents(i, .false., errmsg=errmsg, errflg=errflg)",
             f"      case default\n        call {h}_ccpp_number_constituents(i, errmsg=errmsg, errflg=errflg)",
             "      end select",
             "      call vl_i0('num', i)", "      call ans()",
             "    case ('isc')", "      errflg = -99",
             f"      call {h}_ccpp_is_scheme_constituent(trim(a1), l1, errmsg=errmsg, errflg=errflg)",
             "      call vl_l0('isc', l1)", "      call ans()",
             "    case ('idx')", "      errflg = -99", "      i = -7",
             f"      call {h}_const_get_index(trim(a1), i, errmsg=errmsg, errflg=errflg)",
             "      call vl_i0('idx', i)", "      call ans()",
             "    case ('gather')", "      errflg = -99", "      read(a1,*) i",
             "      if (allocated(ga)) deallocate(ga)",
             f"      allocate(ga({self.ncols},{self.nlev},i))", "      ga = -1.0_kind_phys",
             f"      call {h}_ccpp_gather_constituents(ga, errmsg=errmsg, errflg=errflg)",
             "      call vl_rn('gather', 1, reshape(real(ga,8), (/ size(ga) /)))", "      call ans()",
             "    case ('ub')", "      read(a1,*) i", "      read(a2,*) j", "      ub(i) = j", "      write(*,'(a)') '=>ok'",
             "    case ('update')", "      errflg = -99", "      read(a1,*) i",
             "      if (allocated(ga)) deallocate(ga)",
             f"      allocate(ga({self.ncols},{self.nlev},i))",
             "      do k = 1, i", f"        do n = 1, {self.nlev}", f"          ga(:,n,k) = (/ (ub(k) + 10*n + m, m = 1, {self.ncols}) /)",
             "        end do", "      end do",
             f"      call {h}_ccpp_update_constituents(ga, errmsg=errmsg, errflg=errflg)", "      call ans()",
             "    case ('dealloc')",
             f"      call {h}_ccpp_deallocate_dynamic_constituents()", "      write(*,'(a)') '=>ok'",
             "    case ('ptrs')",
             f"      fp => {h}_constituents_array()", f"      ap => {h}_advected_constituents_array()", f"      pp => {h}_model_const_properties()",
             "      if (associated(fp)) call vl_rn('full', 1, reshape(real(fp,8), (/ size(fp) /)))",
             "      if (associated(ap)) call vl_rn('adv', 1, reshape(real(ap,8), (/ size(ap) /)))",
             "      if (associated(pp)) then", "        do i = 1, size(pp)",
             "          call pp(i)%standard_name(a1)", "          call vl_s0('p name', a1)",
             "          call pp(i)%units(a1)", "          call vl_s0('p units', a1)",
             "          call pp(i)%long_name(a1)", "          call vl_s0('p long', a1)",
             "          call pp(i)%is_advected(l1)", "          call vl_l0('p adv', l1)",
             "          call pp(i)%const_index(j)", "          call vl_i0('p idx', j)",
             "          call pp(i)%has_default(l1, errflg, errmsg)", "          call vl_l0('p hasdef', l1)",
             "          if (l1) then", "            call pp(i)%default_value(rv, errflg, errmsg)", "            call vl_r0('p def', real(rv,8))", "          end if",
             "        end do", "      end if", "      write(*,'(a)') '=>ok'",
             "    case ('hostc')",
             "      if (allocated(hc)) then", "        do i = 1, size(hc)",
             "          call hc(i)%standard_name(a1, errcode=errflg, errmsg=errmsg)", "          call vl_s0('h name', a1)",
             "          call hc(i)%units(a1, errcode=errflg, errmsg=errmsg)", "          call vl_s0('h units', a1)",
             "        end do", "      end if", "      write(*,'(a)') '=>ok'"]
        return "\n".join(L)

    def driver(self):
        t = super().driver()
        t = t.replace("  use vlab\n", "  use vlab\n  use ccpp_constituent_prop_mod\n", 1)
        t = t.replace("  integer :: ios, n, i, j, k",
                      "  type(ccpp_constituent_properties_t), allocatable, target :: hc(:)\n"
                      "  real(kind_phys), allocatable :: ga(:,:,:)\n  real(kind_phys) :: rv\n  integer :: m, ub(20)\n"
                      "  real(kind_phys), pointer :: fp(:,:,:), ap(:,:,:)\n"
                      "  type(ccpp_constituent_prop_ptr_t), pointer :: pp(:)\n"
                      "  integer :: ios, n, i, j, k", 1)
        L = ["  subroutine ans()", "    write(*,'(a,i0,3a)') '=>', errflg, ' [', trim(errmsg), ']'", "  end subroutine ans",
             "  subroutine host_consts(how, what)", "    character(len=*), intent(in) :: how, what",
             "    integer :: q, r, ids(20), nq", "    if (how == 'same') return",
             "    if (allocated(hc)) deallocate(hc)",
             "    nq = 0", "    if (what /= '-') then", "      read(what,*) nq", "      read(what,*) nq, ids(1:nq)", "    end if",
             "    allocate(hc(nq))", "    do q = 1, nq", "      select case (ids(q))"]
        for i, d in enumerate(self.conf["hostdefs"]):
            L += [f"      case ({i + 1})", "        " + inst("hc(q)", d)]
        L += ["      end select", "      if (errflg /= 0) write(*,'(2a)') 'V instantiate ', trim(errmsg)", "    end do", "  end subroutine host_consts",
              "end program vdriver"]
        return t.replace("end program vdriver", "\n".join(L))
