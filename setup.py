#!/usr/bin/env python3
"""Checks that the toolchain is there and that the harness compiles against the current tree."""
import os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp(prefix="vp_setup_")
try:
    r = subprocess.run(["make", "-s", "-j8", "-f", H + "/harness/Makefile", "OUT=" + d, "REPO=" + os.environ.get("VERIF_REPO", "/repo"), "PARTS=props_e", d + "/runner"])
    sys.exit(0 if r.returncode == 0 else 2)
finally:
    shutil.rmtree(d, ignore_errors=True)
