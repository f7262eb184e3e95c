#!/usr/bin/env python3
"""Runs one check: python3 run.py <property id> [--thorough]

Builds the harness from /repo's working tree (into /verif/build, which git
ignores), explores, confirms every violation by replaying it alone, and writes
evidence/<id>.json. Exit 0: held. Exit 1: VIOLATION line printed.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
sys.path.insert(0, V)
from checks import CHECKS, HARNESSES  # noqa

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -ftrivial-auto-var-init=pattern"
ENV = {
    "OMP_NUM_THREADS": "1", "OMP_DYNAMIC": "false", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:quarantine_size_mb=16:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:alloc_dealloc_mismatch=1:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tree_key(h):
    m = hashlib.sha256()
    files = []
    for pat in ("include/*", "lmb/*", "*.py", "plots/*.py"):
        files += glob.glob(os.path.join(REPO, pat))
    files += glob.glob(os.path.join(V, "harness", "*"))
    for f in sorted(files):
        if os.path.isfile(f):
            m.update(f.encode()); m.update(open(f, "rb").read())
    m.update(json.dumps(h, sort_keys=True).encode()); m.update(SAN.encode())
    return m.hexdigest()[:20]


def build(name):
    """Compile a harness; returns its directory."""
    h = HARNESSES[name]
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, f"{name}-{tree_key(h)}")
    with open(os.path.join(BUILD, f"{name}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            return d
        for old in glob.glob(os.path.join(BUILD, f"{name}-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        pyinc = suffix = ""
        if "{pyinc}" in json.dumps(h) or "{suffix}" in json.dumps(h):
            pyinc = sh("/usr/bin/python3 -m pybind11 --includes").stdout.decode().strip()
            suffix = sh("/usr/bin/python3-config --extension-suffix").stdout.decode().strip()
        sub = {"repo": REPO, "verif": V, "out": d, "san": SAN, "pyinc": pyinc, "suffix": suffix,
               "cxx": "/usr/bin/clang++-18 -std=c++17 -I%s/include -I%s/harness -isystem /usr/include/eigen3 -Wno-everything" % (REPO, V)}
        groups = [[c] if isinstance(c, str) else c for c in h["build"]]
        for g in groups:   # commands of one group run in parallel
            cmds = [re.sub(r"\{(repo|verif|out|san|pyinc|suffix|cxx)\}", lambda m: sub[m.group(1)], c) for c in g]
            ps = [subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for c in cmds]
            outs = [p.communicate()[0] for p in ps]
            for c, p, o in zip(cmds, ps, outs):
                if p.returncode:
                    print("BUILD FAILED:", c); print(o.decode(errors="replace")[-6000:])
                    shutil.rmtree(d, ignore_errors=True)
                    return None
        open(os.path.join(d, "ok"), "w").close()
    return d


def run_limited(cmd, env, timeout):
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return -9, o.decode(errors="replace"), True


def known_findings():
    out = []
    p = os.path.join(V, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
        if m:
            out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    t0 = time.time()
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = {"states": 0, "transitions": 0, "cases": 0, "checks": 0, "skipped": 0, "families": {}, "outcomes": {}, "samples": [], "cut": False}
    confirmed, unconfirmed, known = [], [], []
    rdir = os.path.join(EVID, "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")):
        os.remove(f)
    kf = [k for k in known_findings() if k[0] == pid]
    env = dict(os.environ); env.update(ENV)
    with concurrent.futures.ThreadPoolExecutor() as ex:
        dirs = list(ex.map(build, c["harness"]))
    if None in dirs:
        sys.exit(3)
    for hn, d in zip(c["harness"], dirs):
        h = HARNESSES[hn]
        e = dict(env); e.update(h.get("env", {})); e["VERIF_BUILD_DIR"] = d; e["VERIF_REPO"] = REPO; e["VERIF_DIR"] = V
        exe = [x.replace("{out}", d).replace("{verif}", V) for x in h["run"]]
        tmp = tempfile.mkdtemp(prefix="mc-")
        e["TMPDIR"] = tmp
        try:
            for attempt in range(2):
                out = os.path.join(tmp, "out.json")
                if os.path.exists(out):
                    os.remove(out)
                base = exe + ["--prop", pid] + (["--thorough"] if thorough else [])
                limit = 7200 if thorough else 700
                rc, o, hung = run_limited(base + ["--tmp", tmp, "--out", out, "--jobs", str(c.get("jobs", 8)),
                                                  "--budget", str(6000 if thorough else 420),
                                                  "--case-limit", str(c.get("case_limit", 60))], e, limit)
                if not os.path.exists(out):
                    print(f"harness {hn} gave no result (rc={rc}, timeout={hung})"); print(o[-4000:])
                    sys.exit(3)
                r = json.load(open(out))
                # confirm by replaying alone, in a fresh process, with a longer limit
                seen, nconf = {}, 0
                for v in r["violations"]:
                    key = v["case"].split(":")[0]
                    if seen.get(key, 0) >= 2 or nconf >= 6:
                        continue
                    seen[key] = seen.get(key, 0) + 1
                    if os.path.isdir(tmp):
                        rc2, o2, hung2 = run_limited(base + ["--tmp", tmp, "--replay", v["case"]], e, 2.5 * c.get("case_limit", 60))
                    v["replay_rc"] = rc2; v["replay_out"] = o2[-6000:]
                    if rc2 == 0 or rc2 == 3:
                        unconfirmed.append(v); continue
                    v["harness"] = hn
                    k = next((k for k in kf if re.search(k[1], v["case"] + " " + v["msg"])), None)
                    if k:
                        known.append((k, v)); continue
                    v["cmd"] = " ".join(base + ["--replay", v["case"]]); v["dir"] = d
                    confirmed.append(v); nconf += 1
                if r["violations"] and not confirmed and not known and attempt == 0:
                    continue    # nothing reproduced alone: explore once more before dropping it
                break
            if r["violations"] and not confirmed and not known:
                # twice seen, never alone: a state the exploration itself carries over; report it as seen
                both = set(v["case"] for v in r["violations"]) & set(v["case"] for v in unconfirmed)
                for v in r["violations"]:
                    if v["case"] in both and sum(u["case"] == v["case"] for u in unconfirmed) >= 2:
                        v["harness"] = hn; v["cmd"] = " ".join(base); v["replay_out"] = "(seen in two full explorations, not alone)"
                        confirmed.append(v); break
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for k in ("states", "transitions", "cases", "checks", "skipped"):
            total[k] += r.get(k, 0)
        total["cut"] |= r.get("cut", False)
        for k, n in r["families"].items():
            total["families"][k] = n
        for k, n in r["outcomes"].items():
            total["outcomes"][k] = total["outcomes"].get(k, 0) + n
        total["samples"] += r["samples"][:16]
        for k in r:
            if k.startswith("x_"):
                total[k] = r[k]
    wall = time.time() - t0
    cov = {
        "states": total["states"], "transitions": total["transitions"],
        "traces_validated_against_impl": total["cases"],
        "exhaustive": not total["cut"],
        "samples": total["samples"] or ["(none)"],
        "property_checks": total["checks"], "cases_skipped": total["skipped"],
        "families": total["families"], "outcomes": total["outcomes"],
        "bounds": c["bounds"],
        "rule": "every case of every family is executed on the real code built from /repo; a state is a distinct hash of the inputs or reached tracker contents, a transition one call into the code under test; cases_skipped counts cases outside the property's domain (or too near a threshold to be decided in floating point)",
    }
    for k in total:
        if k.startswith("x_"):
            cov[k[2:]] = total[k]
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": c.get("level", "model_checking"),
          "coverage": cov, "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(confirmed)}
    if unconfirmed:
        ev["coverage"]["unconfirmed"] = [u["case"] + " " + u["msg"] for u in unconfirmed][:10]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in known[:10]:
        print(f"KNOWN-FINDING: property={pid} {k[2]} [{v['case']}]")
    print(f"{pid}: {total['cases']} executions, {total['states']} states, {total['transitions']} transitions, {total['checks']} checks, "
          f"{'complete' if not total['cut'] else 'CUT SHORT'}, {wall:.1f} s")
    if confirmed:
        for n, v in enumerate(confirmed[:5]):
            rp = os.path.join(rdir, f"{pid}-{n}.txt")
            with open(rp, "w") as f:
                f.write(f"property {pid}\ncase {v['case']}\n{v['msg']}\nreplay: cd {V} && python3 run.py {pid} builds; then\n  {v['cmd']}\n\n{v['replay_out']}\n")
            print(f"  {v['case']}: {v['msg'][:600]}")
            print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
