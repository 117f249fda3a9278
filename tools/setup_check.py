#!/usr/bin/env python3
"""setup_cmd: nothing to build (pure Python); checks that everything a check needs imports and that the reference model agrees
with an independent propagation."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
check.reexec()
from dst import engine, refmodel
engine.load()
for p in ["C%02d" % i for i in range(1, 26)]:
    engine.scenario(p)
if hasattr(refmodel, "selftest"):
    refmodel.selftest()
print("ok")
