#!/usr/bin/env python3
"""Checks that the tools the simulators need are present and create the working folders."""
import os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("gcc", "g++", "objcopy", "nm", "ar"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
print("ok")
