#!/usr/bin/env python3
"""C04: optional arguments and activation (CapData.tla)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from capdata import *
from c06_accept import accept


def check(c):
    run_data(c, 999, dyn_scenario(), random.Random(3), 6, 30, bounds=True)
    run_many(c, 400 if c.thorough else 56, ["opt", "opt", "opt", "suite"], 40 if c.thorough else 12, 40 if c.thorough else 30)
    # arguments which are not optional and variables which are not always there
    accept(c, 1200 if c.thorough else 160, '"nonopt", "hostact"')


main(check, "C04", assumptions=["scheme arguments do not alias"])
