#!/usr/bin/env python3
"""setup_cmd: nothing is built ahead of time (each check builds what it needs
from /repo's working tree); verify that the tools are there."""
import shutil, subprocess, sys
bad = [t for t in ("java", "gfortran") if not shutil.which(t)]
if bad:
    sys.exit("missing tools: " + ", ".join(bad))
subprocess.run(["/usr/bin/python3", "tools/mkprops.py"], check=True)
