#!/usr/bin/env python3
"""Extracts every source file once so that the checks start from a warm cache."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spx import ir  # noqa: E402

try:
    for ld in (True, False):
        p = ir.load(("source", "SM"), long_double=ld)
        print("%d units, %d functions" % (len(p.units), len(p.functions)))
    ir.load(("source", "SM"), tests=True)
    ir.load(("source", "user-dir"))
except ir.AnalysisError as e:
    print("not warmed: %s" % e)
