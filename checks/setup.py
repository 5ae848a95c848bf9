#!/usr/bin/env python3
"""Builds everything once, so that the first checks start warm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run

e = run.env()
code, out = run.cargo(["build", "--offline", "--locked", "--release", "--target-dir", run.TARGET, "--bins"],
                      e, run.HARNESS, timeout=900)
print(out[-1500:])
if code:
    sys.exit(1)
try:
    import sanitizers
    sanitizers.prepare()
except ImportError:
    pass
