#!/usr/bin/env python3
"""C21: histories of prebuild generations into one directory (GenDir.tla, GenTrace.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import main
import regen

if __name__ == "__main__":
    main(lambda c: regen.check(c, "prebuild"), "C21",
         assumptions=["a killed generator stops between two changes of the file system, as seen by Python's audit events"])
