#!/usr/bin/env python3
"""C01: life-cycle protocol of the generated suite caps (CapLifecycle.tla)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from caplife import *


def check(c):
    n = 60 if c.thorough else 24
    jobs = []
    for i in range(n):
        rng = random.Random(c.seed * 77 + i)
        cfg = rand_config(rng, nsuites=[3, 2, 1, 2, 3, 2][i % 6], depth=1)
        names = [s["name"] for s in cfg["suites"]]
        parts = [g["name"] for s in cfg["suites"] for g in s["groups"]]
        bad = ["zz", rng.choice(names) + "x", rng.choice(names)[:-1] or "q", "_"]
        bad = sorted(set(b for b in bad if b not in names))
        badp = sorted(set(x for x in [rng.choice(parts) + "2", "initialize", "_", parts[0][:-1] or "w"]
                          if x not in parts))
        tags = [(k, p) for k, e in cfg["entry"].items() for p in e]
        fails = rng.sample(tags, min(2, len(tags)))
        jobs.append((i, cfg, fails, bad, badp))

    def one(j):
        i, cfg, fails, bad, badp = j
        return run_config(c, i, cfg, False, fails, bad, badp, [1], 60000 if c.thorough else 9000,
                          threads=(0, 1, 2) if i % 3 == 2 else (0,))
    for r in fork_map(c, one, jobs):
        if r:
            c.states += r[0]
            c.transitions += r[1]
    c.cov["configurations"] = n


main(check, "C01", assumptions=["schemes themselves terminate and only report errors through ccpp_error_code"])
