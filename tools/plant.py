#!/usr/bin/env python3
"""Confirms planted bugs: plant.py [--nocheck] [--skip-validate] ID...
For each /verif/seeded/ID, in a private copy of /repo bind-mounted over /repo in a
user+mount namespace: demo passes unpatched, patch applies, builds, stable tests pass,
demo fails patched; then runs this property's check (and any more given by --also)
on the patched tree and expects exit 1."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = [a for a in sys.argv[1:] if a.startswith("--")]
base = json.load(open("/opt/vp/BASELINE.json"))

INNER = r'''
set -u
mount --bind "$WT" /repo
cd /repo
demo() { timeout 300 bash "$SEED/demo.sh" > "$WT/../demo.$1.log" 2>&1; echo $?; }
if [ -z "$SKIP" ]; then
  bash /opt/vp/build.sh > $WT/../build0.log 2>&1 || echo "R build0-failed"
  echo "R demo_clean $(demo clean)"
fi
git -c safe.directory=/repo apply "$SEED/patch.diff" || { echo "R apply-failed"; exit; }
if [ -z "$SKIP" ]; then
  bash /opt/vp/build.sh > $WT/../build1.log 2>&1 || { echo "R build1-failed"; tail -20 $WT/../build1.log; exit; }
  bash /opt/vp/test.sh $WT/../tests.json > $WT/../test.log 2>&1
  echo "R demo_patched $(demo patched)"
fi
if [ -z "$NOCHECK" ]; then
  for p in $PROPS; do
  cd $V && VERIF_TIER=quick VERIF_SEED=1 VERIF_BUILD=$WT/../vbuild VERIF_EVIDENCE=$WT/../evid timeout 900 python3 run.py $p > $WT/../check.log 2>&1
  echo "R check $p $?"; tail -6 $WT/../check.log | cut -c1-400
  done
fi
'''
def one(i):
    seed = i if i.startswith("/") else os.path.join(V, "seeded", i)
    meta = json.load(open(seed + "/meta.json"))
    top = tempfile.mkdtemp(prefix="plant-"); wt = top + "/wt"
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
    os.chmod(top, 0o755)
    props = [meta["property"]] + [f.split("=")[1] for f in flags if f.startswith("--also=")]
    env = dict(os.environ, WT=wt, SEED=seed, V=V, PROPS=" ".join(props), NOCHECK="1" if "--nocheck" in flags else "", SKIP="1" if "--skip-validate" in flags else "")
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    print(f"== {i} ({meta['property']})"); print(r.strip())
    tj = top + "/tests.json"
    if os.path.exists(tj):
        t = json.load(open(tj))
        bl = set(base["stable"])
        passed = set(t.get("passed", []))
        want = bl if bl is not None else set(base.get("passed", base.get("tests", [])))
        print("tests:", "all stable pass" if want <= passed else f"MISSING {sorted(want - passed)}", len(passed))
    for l in ("demo.clean.log", "demo.patched.log"):
        p = top + "/" + l
        if os.path.exists(p) and "-v" in sys.argv[0:] : print(l, open(p).read()[-500:])
    for n in ("clean", "patched"):
        p = f"{top}/demo.{n}.log"
        if os.path.exists(p): print(n, ":", open(p, errors="replace").read().strip()[-300:])
    sys.stdout.flush()
    shutil.rmtree(top, ignore_errors=True)
for i in args: one(i)
