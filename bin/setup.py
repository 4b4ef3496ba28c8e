#!/usr/bin/env python3
"""Sanity of the environment; everything else is built by each check from /repo's working tree."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
missing = [t for t in ("g++", "clang++", "valgrind") if not shutil.which(t)]
for p in ("evidence", "replays", ".cache"):
    os.makedirs(os.path.join(vlib.VERIF, p), exist_ok=True)
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
