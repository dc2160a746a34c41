#!/usr/bin/env python3
"""Builds the condition generator."""
import os, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check
d = tempfile.mkdtemp()
try:
    print("built", check.build_vcgen(d))
finally:
    shutil.rmtree(d, ignore_errors=True)
