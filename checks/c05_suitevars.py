#!/usr/bin/env python3
"""C05: variables owned by the suites (CapData.tla)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from capdata import *


def check(c):
    run_many(c, 400 if c.thorough else 56, ["suite", "suite", "suite", "conv"], 40 if c.thorough else 12, 40 if c.thorough else 30)


main(check, "C05", assumptions=["scheme arguments do not alias"])
