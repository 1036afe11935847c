#!/usr/bin/env python3
"""Builds the simulator and its harnesses once (fills the build cache)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
scratch = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for gen in (False, True):
        d = os.path.join(scratch, "gen" if gen else "lib")
        os.makedirs(d)
        b = check.Build(d, "/repo", gen)
        b.binary(False)
        if not gen:
            b.binary(True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
