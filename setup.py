#!/usr/bin/env python3
"""Builds the instrumented libraries and every harness ahead of the checks."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "lib"))
import build, checks
from concurrent.futures import ThreadPoolExecutor
for fl in sorted({f for _, f in checks.HARNESS}):
    build.build_lib(fl)
with ThreadPoolExecutor(4) as ex:
    list(ex.map(lambda a: build.build_harness(*a), checks.HARNESS))
