#!/usr/bin/env python3
"""Checks that what the checks need is there (they build the rest themselves)."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core   # noqa: E402

for t in ("g++", "clang++", "java"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
for p in core.CP.split(":"):
    if not os.path.exists(p):
        sys.exit(f"{p} is missing")
core.abnf()   # TLC runs
print("ready")
