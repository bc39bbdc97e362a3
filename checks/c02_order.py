#!/usr/bin/env python3
"""C02: which schemes every call of the generated API runs (CapLifecycle.tla)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from caplife import *


def check(c):
    n = 160 if c.thorough else 40
    jobs = []
    for i in range(n):
        rng = random.Random(c.seed * 131 + i)
        cfg = rand_config(rng, nsuites=[1, 2, 1, 1][i % 4], depth=[2, 1, 3, 0][i % 4])
        tags = [(k, p) for k, e in cfg["entry"].items() for p in e]
        fails = rng.sample(tags, min(4, len(tags)))
        jobs.append((i, cfg, fails))

    def one(j):
        i, cfg, fails = j
        return run_config(c, i, cfg, True, fails, ["zz"], ["zz"], [1, 0, 3],
                          60000 if c.thorough else 6000)
    for r in fork_map(c, one, jobs):
        if r:
            c.states += r[0]
            c.transitions += r[1]
    c.cov["configurations"] = n


main(check, "C02", assumptions=["schemes do not call each other"])
