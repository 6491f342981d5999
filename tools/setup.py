#!/usr/bin/env python3
"""Offline setup: checks that the toolchain the harnesses need is there. Harnesses are compiled by each check."""
import os, shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
for d in ("/usr/include/eigen3/Eigen", "/usr/include/boost"):
    if not os.path.isdir(d):
        missing.append(d)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence"), exist_ok=True)
print("missing: %s" % missing if missing else "setup ok")
sys.exit(1 if missing else 0)
