#!/usr/bin/env python3
"""Checks that the tools are there and that the harness builds."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from base import Ctx, JARS
for j in JARS.split(":"):
    if not os.path.exists(j):
        sys.exit("missing " + j)
tmp = tempfile.mkdtemp(prefix="joeson-setup-")
try:
    Ctx("setup", "quick", 1, tmp).build()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print("ready")
