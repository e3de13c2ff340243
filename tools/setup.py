#!/usr/bin/env python3
"""Checks that harness and operator overrides build (each check builds its own)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
w = tempfile.mkdtemp(prefix="verif-setup-")
try:
    check.build(w)
finally:
    shutil.rmtree(w, ignore_errors=True)
print("ok")
