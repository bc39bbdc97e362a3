#!/usr/bin/env python3
"""C17: constituent property objects, behaviours of spec/ConstProp.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from lts import PipeSut, SutDied

CFG = """INIT Init
NEXT Next
CONSTANT D = 60
INVARIANT TypeOK
INVARIANT KindSound
INVARIANT Emit
PROPERTY ErrSafe
CHECK_DEADLOCK FALSE
"""
NAME = dict(plain="cloud_ice_amount", plain2="Cloud_ice_amount", vol="co2_volume_mixing_ratio",
            num="cloud_droplet_number_concentration", moist="water_vapor_mixing_ratio_wrt_moist_air",
            wet="water_vapor_mixing_ratio_wrt_moist_air_and_condensed_water",
            volwet="o3_volume_mixing_ratio_wrt_moist_air_and_condensed_water",
            numvol="number_concentration_from_volume_mixing_ratio")
VERT = dict(layer="vertical_layer_dimension", interface="vertical_interface_dimension",
            other="number_of_bins")
VERT["2d"] = ""


def expect(o):
    """Expected dump of an object in abstract state o."""
    e = "-" if o["inst"] else "E"
    T = lambda b: "T" if b else "F"
    q = lambda s: f"[{s}]" + e
    inst = o["inst"]
    val = lambda k, unset: (("H" if unset == "H" else "0") if k == 0 else str(k)) if inst else "H"
    f = [q(NAME[o["name"]] if inst else ""), q(f"long {o['long']}" if inst else ""),
         q(o["units"] if inst else ""), q(VERT[o["vert"]] if inst else "")]
    f += [T(b) + e for b in (o["adv"], o["thermo"], o["water"], o["kind"] == "mass",
                             o["kind"] == "volume", o["kind"] == "number",
                             o["wet"] == "dry", o["wet"] == "moist", o["wet"] == "wet")]
    f += [val(o["min"], "0") + e, val(o["mol"], "H") + e, val(o["def"], "H") + e,
          T(inst and o["def"] != 0) + e, ("U" if o["idx"] == 0 else str(o["idx"])) + e]
    f += [T(inst and o["vert"] == "layer"), T(inst and o["vert"] == "interface"),
          T((not inst) or o["vert"] == "2d")]
    return " ".join(f)


def check(c):
    f = os.path.join(c.tmp, "ccpp_kinds.F90")
    with open(f, "w") as h:
        h.write("module ccpp_kinds\n use ISO_FORTRAN_ENV, only: kind_phys => REAL64\n"
                " implicit none\n private\n public kind_phys\nend module ccpp_kinds\n")
    rc, out = gfortran(["-g", "-fcheck=all,no-recursion", "-o", "drv", f,
                        f"{REPO}/src/ccpp_hashable.F90", f"{REPO}/src/ccpp_hash_table.F90",
                        f"{REPO}/src/ccpp_constituent_prop_mod.F90",
                        os.path.join(VERIF, "harness/f90/prop_driver.F90")], c.tmp)
    if rc != 0:
        c.violation("compile", out)
        return
    r = c.tlc("ConstProp", CFG, simulate=20000 if c.thorough else 2000, depth=70)
    traces = r.lines
    if len(traces) < 50:
        raise HarnessError("too few behaviours")
    ops = {}
    for t in traces:
        for s in t:
            k = s["a"]["op"] + (":err" if s["r"].get("err") else "")
            ops[k] = ops.get(k, 0) + 1
    c.cov["operations"] = ops

    def cmd_inst(i, o, adv, wa, df, mn, ml, mr):
        return (f"inst {i} '{NAME[o['name']]}' 'long {o['long']}' '{o['units']}' '{VERT[o['vert']]}' "
                f"'{adv}' {df} {mn} {ml} '{wa}' '{mr}'")

    def one(chunk):
        sut = PipeSut([os.path.join(c.tmp, "drv")], lambda a: a, lambda a, s: s, timeout=10)
        for tr in chunk:
            sut.start()
            hist = []
            c.traces += 1
            prev_ptr = 0
            for st in tr:
                a, res = st["a"], st["r"]
                op = a["op"]
                bad = None
                try:
                    def do(cmd):
                        hist.append(cmd)
                        x = sut.do(cmd)
                        hist.append("  -> " + x)
                        return x
                    T = lambda b: "T" if b else "F"
                    if op == "inst":
                        got = do(cmd_inst(a["i"], a, a["adv"], a["water"], a["def"], a["min"], a["mol"], a["mr"]))
                        exp = T(res["err"])
                    elif op == "twins":
                        for i in (1, 2):
                            o = st["o"][i - 1]
                            do(f"dealloc {i}")
                            do(cmd_inst(i, o, T(o["adv"]), T(o["water"]), o["def"], o["min"], o["mol"], o["wet"]))
                        got = do("equiv 1 2") + do("match 1 2")
                        exp = "F " + T(res["eq"]) + T(res["ma"])
                    elif op in ("setidx", "setthermo", "setwater", "setmin", "setmol"):
                        got = do(f"set '{op}' {a['via']} {a['i']} {a['arg']}")
                        exp = T(res["err"])
                    elif op == "copymut":
                        do(f"copy {a['i']} {a['j']}")
                        arg = {"thermo": int(a["b"]), "water": int(a["b"])}.get(a["w"], a["k"])
                        do(f"set 'set{a['w']}' 0 {a['j']} {arg}")
                        got = do(f"equiv {a['i']} {a['j']}")
                        exp = "F " + T(res["eq"])
                    elif op == "equiv":
                        got = do(f"equiv {a['i']} {a['j']}")
                        exp = T(res["err"]) + " " + T(res["eq"])
                    elif op == "match":
                        got = do(f"match {a['i']} {a['j']}")
                        exp = T(res["eq"])
                    elif op == "pset":
                        got = do(f"pset {a['i']} {a['e']}")
                        exp = T(res["err"])
                    elif op == "copy":
                        got = do(f"copy {a['i']} {a['j']}")
                        exp = "F"
                    else:
                        got = do(f"{op} {a['i']}")
                        exp = "F"
                    if got != exp:
                        bad = f"{a}: answered {got!r}, specification {exp!r}"
                    for i in (1, 2):
                        o = st["o"][i - 1]
                        d = do(f"dump {i}")
                        ex = ("T- " if o["inst"] else "FE ") + expect(o)
                        if d != ex and not bad:
                            bad = f"after {a}: object {i} reports {d!r}, specification {ex!r}"
                    d = do("pdump")
                    if st["p"]:
                        ex = expect(st["o"][st["p"] - 1])
                    else:
                        ex = expect(BLANK).rsplit(" ", 1)[0] + " F"
                    if d != ex and not bad:
                        bad = f"after {a}: pointer reports {d!r}, specification {ex!r}"
                    c.steps += 4
                except SutDied as e:
                    bad = f"{a}: driver died: {e}"
                if bad:
                    c.violation(f"{op}", bad + " ... " + " ; ".join(hist[-6:]), {"history": hist[-300:]})
                    break
            sut.stop()
            if len(c.samples) < 1:
                c.samples.append({"commands": hist[:14]})
    n = NCPU
    fork_map(c, one, [traces[i::n] for i in range(n)])


BLANK = dict(inst=False, name="", long=0, units="", vert="", adv=False, thermo=False, water=False,
             kind="", wet="", min=0, mol=0, idx=0)
BLANK["def"] = 0
main(check, "C17", assumptions=["objects are copied only when instantiated"])
