"""Projects of CapIntro.tla and the questions asked about them (C07, C08)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from capgenlab import *

CFG = """INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
LONG = "a_variable_with_quite_a_long_standard_name_for_a_list"
H = "horizontal_dimension"
# standard name: (local name, type, units, dimensions)
VARS = {"air_temperature": ("tair", "real", "K", (H, "vertical_layer_dimension")),
        "snow_depth": ("snow", "real", "m", (H,)),
        LONG: ("longvar", "real", "1", (H,)),
        "step_number": ("nstep", "integer", "1", ()),
        "tracer_array": ("qarr", "real", "kg kg-1", (H, "number_of_tracers")),
        "first_tracer": ("qarr(:,index_of_first_tracer)", "real", "kg kg-1", (H,)),
        "second_tracer": ("qarr(:,index_of_second_tracer)", "real", "kg kg-1", (H,)),
        "zz_tracer": ("qarr(:,index_of_zz_tracer)", "real", "kg kg-1", (H,)),
        "element_one": ("e1", "real", "m", (H,)),
        "element_two": ("e2", "integer", "1", ()),
        "conditional_field": ("condf", "real", "m", (H,)),
        "condition_flag": ("cflag", "logical", "flag", ()),
        "banded_field": ("banded", "real", "m", (H, "number_of_bands")),
        "number_of_bands": ("nbands", "integer", "count", ()),
        "own_mixing": ("ownm", "real", "kg kg-1", (H,)),
        "own_index": ("owni", "integer", "1", ())}
EXT = {H: "ncols", "vertical_layer_dimension": "nlev", "number_of_tracers": "ntr", "number_of_bands": "2"}
PHASE_PROC = {"init": "initialize", "ts_init": "timestep_initial", "run": "run", "ts_final": "timestep_final", "final": "finalize"}


def project(d, t):
    prot = {h["std"]: h["prot"] for h in t["host"]}
    kids = set(t["kids"])
    hv = [HostVar("ntr", "number_of_tracers", "count", (), "integer", None, decl="integer, parameter :: ntr = 3", protected="True")]
    for i, k in enumerate(("first", "second", "zz"), 1):
        hv.append(HostVar(f"ix{i}", f"index_of_{k}_tracer", "index", (), "integer", None,
                          decl=f"integer, parameter :: ix{i} = {i}", protected="True"))
    ddt = []
    for std in VARS:
        if std not in prot:
            continue
        nm, ty, un, dims = VARS[std]
        pr = {}
        if prot[std]:
            pr["protected"] = "True"
        if std == "conditional_field":
            pr["active"] = "(condition_flag)"
        kind = "kind_phys" if ty == "real" else None
        v = HostVar(nm, std, un, dims, ty, kind, shape=[EXT[x] for x in dims] or None, log=False, **pr)
        if "(" in nm:
            v.decl = ""
        elif std == "number_of_bands":
            v.decl = "integer :: nbands = 2"
        if std.startswith("element"):
            ddt.append(v)
        else:
            hv.append(v)
    hv.append(HostVar("thing", "thing_instance", "DDT", (), "thing_t", None, decl="type(thing_t), target :: thing", log=False))
    em = "[ccpp-table-properties]\n  name = thing_t\n  type = ddt\n[ccpp-arg-table]\n  name = thing_t\n  type = ddt\n"
    em += "".join(v.meta(False) for v in ddt)
    et = "  !> \\section arg_table_thing_t  Argument Table\n  !! \\htmlinclude thing_t.html\n  !!\n  type thing_t\n"
    et += "    real(kind=kind_phys) :: e1(3)\n    integer :: e2\n  end type thing_t"
    ph = {}
    for x in t["args"]:
        al = []
        for std, it in x["a"]:
            nm, ty, un, dims = VARS[std]
            nm = "x_" + std[:20] if "(" in nm else nm
            dd = [("horizontal_loop_extent" if k == H and x["p"] == "run" else k) for k in dims]
            pr = {"optional": "True"} if std == "conditional_field" else {}
            al.append(A(nm, std, un, dd, ty, "kind_phys" if ty == "real" else None, it, log=False,
                        code=f"{nm} = " + {"real": "1.0_kind_phys", "integer": "2", "logical": ".true."}[ty] if it != "in" else None, **pr))
        ph.setdefault(x["c"], {})[x["p"]] = al
    schemes = []
    for c in sorted(ph):
        m = t["meta"][c]
        tp = {}
        if m["deps"]:
            tp["dependencies"] = ", ".join(sorted(m["deps"]))
        if m["rel"]:
            tp["relative_path"] = m["rel"]
        schemes.append(Scheme(c, ph[c], process={p: m["pname"] for p in m["proc"]}, table_props=tp,
                              module=f"{c}_mod" if m["mod"] else None))
    p = Project(d, [{"name": s["name"], "groups": [{"name": g["name"], "items": g["items"]} for g in s["groups"]]} for s in t["suites"]],
                schemes, hv, ncols=3, nlev=2, kinds=["kind_phys=REAL64"], extra_meta=em, extra_types=et)
    p.write()
    return p


def t_own(t):
    """Variables of the suite which a scheme reads: the configuration may
    rightly be rejected (nobody may provide them)."""
    return any(a[0].startswith("own_") and a[1] != "out" for x in t["args"] for a in x["a"])


def configs(c, n):
    nw = NCPU
    rs = pmap(lambda k: c.tlc("CapIntro", CFG, simulate=-(-n // nw), depth=300, seed=c.seed * 1013 + k), list(range(nw)))
    ts = [t for r in rs for t in r.lines]
    if len(ts) < n * 0.8:
        raise HarnessError(f"only {len(ts)} configurations")
    return ts
