#!/usr/bin/env python3
"""C15: model-constituents registry, against spec/ConstReg.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from lts import Lts, PipeSut

CFG = """INIT Init
NEXT Next
VIEW view
CONSTANT CatIds = {%s}
CONSTANT WithData = %s
CONSTANT Sizes = {%s}
INVARIANT IndexSound
INVARIANT OpenHasNoIndex
INVARIANT UninitEmpty
PROPERTY LockedStable
PROPERTY FirstWins
PROPERTY ErrNoChange
PROPERTY LockOrder
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
CAT = {}
for i, row in enumerate([("A", 1, 0, 0, "u1", 1, 0, 1), ("A", 1, 0, 0, "u1", 2, 5, 1),
                         ("A", 0, 0, 0, "u1", 1, 0, 1), ("A", 1, 1, 0, "u1", 1, 0, 1),
                         ("A", 1, 0, 1, "u1", 1, 0, 1), ("A", 1, 0, 0, "u2", 1, 0, 1),
                         ("B", 0, 0, 0, "u1", 3, 1, 1), ("C", 1, 1, 1, "u1", 4, 2, 1),
                         ("D", 0, 0, 1, "u1", 6, 0, 1), ("E", 0, 0, 0, "u1", 0, 0, 0),
                         ("F", 1, 0, 0, "u1", 7, 0, 1)], 1):
    CAT[i] = row
NAMES = [
    dict(A="specific_humidity", B="cloud_liquid", C="cloud_ice", D="rain", E="snow", F="ozone"),
    dict(A="b", B="a", C="d", D="c", E="f", F="e"),
    dict(A="water_vapor_mixing_ratio_wrt_moist_air_and_condensed_water",
         B="water_vapor_mixing_ratio_wrt_moist_air", C="water_vapor_mixing_ratio",
         D="water_vapor_mixing_ratio_wrt_dry_air", E="w", F="water_vapor_volume_mixing_ratio"),
]


def val(tok):
    if tok.startswith("d"):
        return ["def", int(tok[1:])]
    if tok.startswith("v"):
        return ["val", int(tok[1:])]
    return [tok, 0]


def check(c):
    rc, out = gfortran(["-g", "-fcheck=all,no-recursion", "-o", "drv",
                        kinds(c),
                        f"{REPO}/src/ccpp_hashable.F90", f"{REPO}/src/ccpp_hash_table.F90",
                        f"{REPO}/src/ccpp_constituent_prop_mod.F90",
                        os.path.join(VERIF, "harness/f90/const_driver.F90")], c.tmp)
    if rc != 0:
        c.violation("compile", out)
        return
    confs = [("reg", "1,2,3,4,5,6,7,10", "FALSE", "3"),
             ("data", "1,7,8,9", "TRUE", "1,4"),
             ("advs", "1,8,11,9", "TRUE", "2")]
    jobs = []
    for name, ids, wd, sz in confs:
        r = c.tlc("ConstReg", CFG % (ids, wd, sz))
        lts = Lts(r.lines, [r.lines[0]["f"]])
        for ni in range(len(NAMES)):
            if not c.thorough and ni != 0 and name != "data" and ni != 1:
                continue
            jobs.append((name, lts, ni))

    def one(job):
        name, lts, ni = job
        conc = NAMES[ni]
        absn = {v: k for k, v in conc.items()}
        rng = random.Random(c.seed * 31 + ni)

        def enc(a):
            op = a["op"]
            if op == "init":
                return f"init {rng.choice([1, 2, 3, 5, 20])}"
            if op == "add":
                n, adv, th, wa, un, df, mn, lay = CAT[a["id"]]
                t = lambda x: ".true." if x else ".false."
                return f"add {a['id']} {conc[n]} {t(adv)} {t(th)} {t(wa)} '{un}' {df}.0 {mn}.0 {t(lay)}"
            if op in ("index", "meta"):
                return f"{op} {conc[a['name']]}"
            if op == "num":
                return "num " + " ".join("'%s'" % x for x in a["pat"])
            if op == "in":
                return "in " + " ".join("'%s'" % x for x in a["pat"]) + f" {a['m']} {2 if a['lev'] else 3}"
            if op == "out":
                return "out " + " ".join("'%s'" % x for x in a["pat"]) + f" {a['m']} {a['b']} {2 if a['lev'] else 1}"
            if op == "poke":
                return f"poke {a['i']}"
            return op + " "

        def dec(a, s):
            op = a["op"]
            p = s.split()
            T = lambda x: x == "T"
            if op in ("init", "reset", "poke"):
                return {"ok": s == "ok"}
            if op == "okadd":
                return {"ok": T(p[0]), "err": T(p[1])}
            if op == "status":
                return {"props": T(p[0]), "data": T(p[1]), "both": T(p[2]), "err": T(p[3]),
                        "nlay": int(p[4]), "nadv": int(p[5]), "fptr": T(p[6]),
                        "aptr": T(p[7]), "pptr": T(p[8])}
            if op in ("add", "lockdata", "out"):
                return {"err": T(p[0])} if len(p) == 1 else {"bad": s}
            if op == "lock":
                return {"err": T(p[0]), "order": [absn.get(x, x) for x in p[1:]]}
            if op == "num":
                return {"n": int(p[0]), "err": T(p[1])}
            if op == "index":
                return {"i": int(p[0]), "err": T(p[1])}
            if op == "meta":
                return {"err": T(p[0]), "id": int(p[1]), "i": int(p[2])}
            if op == "props":
                return {"list": [int(x) for x in p]}
            if op == "fields":
                k = p.index("|")
                return {"list": [val(x) for x in p[:k]], "mins": [int(x) for x in p[k + 1:]]}
            if op == "in":
                return {"err": T(p[0]), "list": [val(x) for x in p[1:]]}
            return {"raw": s}
        sut = PipeSut([os.path.join(c.tmp, "drv")], enc, dec, timeout=10)
        lts.walk(sut, c, f"{name}/names{ni}", rng=rng,
                 max_steps=1000000 if c.thorough else 60000, restart_every=2500,
                 timeout=400 if c.thorough else 45)
    fork_map(c, one, jobs)


def kinds(c):
    f = os.path.join(c.tmp, "ccpp_kinds.F90")
    with open(f, "w") as h:
        h.write("module ccpp_kinds\n use ISO_FORTRAN_ENV, only: kind_phys => REAL64\n"
                " implicit none\n private\n public kind_phys\nend module ccpp_kinds\n")
    return f


main(check, "C15", assumptions=["constituent objects are heap allocated and owned by the registry"])
