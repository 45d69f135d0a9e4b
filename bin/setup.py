#!/usr/bin/env python3
"""Builds all drivers once so that the checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from plan import PLAN
for f, d in sorted({tuple(r[:2]) for v in PLAN.values() for r in v["runs"]}):
    print(vbuild.build(f, d))
