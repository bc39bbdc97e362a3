#!/usr/bin/env python3
"""C16: hash table and iterator, against spec/HashTable.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from lts import Lts, PipeSut

CFG = """INIT Init
NEXT Next
VIEW view
CONSTANT Keys = {%s}
CONSTANT Ids = {1, 2}
CONSTANT ErrAbsent = TRUE
INVARIANT TypeOK
INVARIANT UninitIsEmpty
INVARIANT IterSound
PROPERTY NoLoss
PROPERTY ErrNoChange
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
FIXED_KEYS = [
    ["a", "b", "c", "d"],
    ["k", "kk", "kkk", "kkkk"],
    ["ab", "ba", "AB", "aB"],
    ["water_vapor_specific_humidity", "water_vapor_mixing_ratio_wrt_moist_air",
     "cloud_liquid_water_mixing_ratio_of_moist_air", "cloud_ice"],
    ["a_very_long_key_name_that_exceeds_fifteen", "a_very_long_key_name_that_exceeds_fifteeN",
     "_very_long_key_name_that_exceeds_fifteena", "a very long key with blanks"],
]


def khash(s, off, bits):
    f = [61, 59, 53, 47, 43, 41, 37, 31, 29, 23, 17, 13, 11, 7, 3, 1]
    h, j = off, 0
    for ch in s:
        j += 1
        if j > 15:
            j = 1
        h ^= ord(ch) * f[j]
    return h & ((1 << bits) - 1)


def colliding(rng, n, bits=4):
    """Keys that (with the present hash function) fall into one bucket; only
    used to choose interesting keys, never as an oracle."""
    groups = {}
    while True:
        k = "".join(rng.choice("abcxyz_019") for _ in range(rng.randint(1, 20)))
        if k in sum(groups.values(), []):
            continue
        g = groups.setdefault(khash(k, 21467, bits), [])
        g.append(k)
        if len(g) == n:
            return g


def layout(rng, pattern, bits):
    """Keys which (with the present hash function) fall into the buckets given"""
    ks = []
    for b in pattern:
        while True:
            k = "".join(rng.choice("abcxyz_019") for _ in range(rng.randint(1, 20)))
            if k not in ks and khash(k, 21467, bits) == b:
                ks.append(k)
                break
    return ks


def check(c):
    nk = 4
    names = ["k%d" % i for i in range(nk)]
    r = c.tlc("HashTable", CFG % ", ".join('"%s"' % n for n in names))
    lts = Lts(r.lines, [r.lines[0]["f"]])
    rc, out = gfortran(["-g", "-fcheck=all,no-recursion", "-o", "drv",
                        f"{REPO}/src/ccpp_hashable.F90", f"{REPO}/src/ccpp_hash_table.F90",
                        os.path.join(VERIF, "harness/f90/hash_driver.F90")], c.tmp)
    if rc != 0:
        c.violation("compile", out)
        return
    sets = [(ks, sz, off) for ks, (sz, off) in
            zip(FIXED_KEYS, [(0, 0), (1, 0), (2, 0), (4, 7), (8, 0)])]
    for i in range(3 if not c.thorough else 40):
        n = c.rng.choice([0, 1, 2, 3, 4, 4, 6, 10])
        sets.append((colliding(c.rng, nk, min(n, 4)), n, c.rng.choice([0, 0, 5, 99991])))
    # chains of every length before, after and next to other buckets
    for pat in ([0, 0, 0, 1], [0, 1, 1, 1], [0, 0, 1, 1], [1, 1, 1, 1], [0, 0, 0, 0]):
        sets.append((layout(c.rng, pat, 1), 1, 0))
    for pat in ([0, 0, 0, 2], [1, 1, 1, 2], [2, 3, 3, 3], [0, 3, 3, 1], [3, 3, 3, 0]):
        sets.append((layout(c.rng, pat, 2), 2, 0))
    if c.thorough:
        for _ in range(20):
            b = c.rng.randint(1, 3)
            sets.append((layout(c.rng, [c.rng.randrange(2 ** b) for _ in range(nk)], b), b, 0))
        sets += [(ks, sz, 0) for ks in FIXED_KEYS for sz in (0, 1, 2, 3, 5)]

    def one(arg):
        idx, (keys, sz, off) = arg
        conc = dict(zip(names, keys))
        absn = {v: k for k, v in conc.items()}

        def enc(a):
            op = a["op"]
            if op == "init":
                return f"init {sz} {off}"
            if op in ("add", "addq"):
                return f"{op} {a['id']} {conc[a['key']]}|"
            if op in ("get", "getq"):
                return f"{op} {conc[a['key']]}{'  ' if (idx % 2) else ''}|"
            return op + " "

        def dec(a, s):
            op = a["op"]
            p = s.split()
            if op in ("init", "clear", "num"):
                return {"inited": p[0] == "T", "n": int(p[1])}
            if op in ("add", "addq"):
                return {"err": p[0] == "T"}
            if op in ("get", "getq"):
                return {"found": p[0] == "T", "id": int(p[1]), "err": p[2] == "T"}
            k = s[s.index("[") + 1:s.rindex("]")]
            return {"valid": p[0] == "T", "id": int(p[1]), "key": absn.get(k.rstrip(), k)}
        sut = PipeSut([os.path.join(c.tmp, "drv")], enc, dec, timeout=10)
        lts.walk(sut, c, f"keys{idx}/size{sz}", rng=random.Random(c.seed + idx),
                 max_steps=400000 if c.thorough else 60000, restart_every=6000,
                 timeout=300 if c.thorough else 40)
    fork_map(c, one, list(enumerate(sets)))
    c.cov["key_sets"] = len(sets)


main(check, "C16", assumptions=["keys are non-empty; objects stay allocated while stored",
                                "the table is not modified while an iterator is in use"])
