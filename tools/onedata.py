#!/usr/bin/env python3
"""Development aid: build one configuration of the CapData checks in a directory
   onedata.py DIR SEED IDX MIX[,MIX..] [run]"""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/checks", V + "/harness"]
from capdata import *
d, seed, idx, mix = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
shutil.rmtree(d, True)
rng = random.Random(seed * 104729 + idx)
cfg = rand_data(rng, mix[idx % len(mix)])
p = project(d, cfg, rng)
debug = rng.random() < 0.25
rc, out = p.generate(extra=["--debug"] if debug else [])
print("generate", rc, out[-600:], "debug" if debug else "")
if rc == 0:
    rc, out = p.compile()
    print("compile", rc, out[:900])
