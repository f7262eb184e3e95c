#!/usr/bin/env python3
"""setup_cmd: checks that the tools the harnesses need are present. Every check
builds its own harness from /repo's working tree when it runs."""
import shutil, subprocess, sys, os
ok = True
for t in ("/usr/bin/clang++-18", "/usr/bin/python3"):
    if not os.path.exists(t):
        print("missing", t); ok = False
for h in ("/usr/include/eigen3/Eigen/Core",):
    if not os.path.exists(h):
        print("missing", h); ok = False
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "build"), exist_ok=True)
sys.exit(0 if ok else 1)
