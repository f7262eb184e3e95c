#!/usr/bin/env python3
"""Regenerates /verif/seeded/<id>/ from tools/seeds/<id>.py (edits as old/new text pairs
against /repo's HEAD, and a demonstration program)."""
import glob, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# Run with cwd /repo. Exit 0: the property held.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
/usr/bin/clang++-18 -std=c++17 -O1 -g -fopenmp %s -Wno-everything -I"$PWD/include" -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" %s
cd "$tmp"
%s timeout 120 ./demo
'''
DEMO_PY = r'''#!/bin/bash
# Run with cwd /repo after the build. Exit 0: the property held.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export REPO="$PWD" PYTHONPATH="$PWD/_build/py" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cd "$tmp"
timeout 120 /usr/bin/python3 "$here/demo.py"
'''
ids = sys.argv[1:] or [os.path.basename(p)[:-3] for p in sorted(glob.glob(V + "/tools/seeds/*.py"))]
for i in ids:
    ns = {}
    exec(open(V + "/tools/seedlib.py").read(), ns)
    exec(open(f"{V}/tools/seeds/{i}.py").read(), ns)
    d = f"{V}/seeded/{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
    for f, old, new in ns["edits"]:
        s = open(f"{t}/{f}", newline="").read()
        if s.count(old) != 1: print(f"{i}: {f}: {s.count(old)} matches of {old[:80]!r}")
        s = s.replace(old, new, 1); open(f"{t}/{f}", "w", newline="").write(s)
    diff = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    if "demo_py" in ns:
        open(d + "/demo.py", "w").write(ns["demo_py"]); open(d + "/demo.sh", "w").write(DEMO_PY)
    else:
        open(d + "/demo.cpp", "w").write(ns["demo"]); open(d + "/demo.sh", "w").write(DEMO_SH % (ns.get("cflags", ""), ns.get("ldflags", ""), ns.get("env", "OMP_NUM_THREADS=1")))
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
