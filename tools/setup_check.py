#!/usr/bin/env python3
"""Setup: the tools are there and the caches start empty. Every check builds what it needs from /repo's working tree."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("g++", "clang++", "valgrind") if not shutil.which(t)]
if not os.path.exists("/opt/vp/venv/bin/python"):
    missing.append("/opt/vp/venv/bin/python")
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
for d in (".cache", "out"):
    shutil.rmtree(os.path.join(V, d), ignore_errors=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok")
