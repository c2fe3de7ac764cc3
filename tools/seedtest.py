#!/usr/bin/env python3
"""For each seeded change: scratch copy, apply, tests, demo, check.  Usage: seedtest.py [-j N] [--checks-only] IDS..."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
a = sys.argv[1:]; J = 4
if "-j" in a: i = a.index("-j"); J = int(a[i + 1]); del a[i:i + 2]
only = "--checks-only" in a; a = [x for x in a if x != "--checks-only"]
seed = os.environ.get("VERIF_SEED", "1")
def one(id):
    d = f"{V}/seeded/{id}"; c = f"/tmp/seed_{id}"
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    r = dict(id=id, prop=json.load(open(d + "/meta.json"))["property"])
    env = dict(os.environ, PYTHONPATH=c + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        if not only: r["demo_clean"] = subprocess.run(["bash", d + "/demo.sh"], cwd=c, env=env, capture_output=True, timeout=300).returncode
        p = subprocess.run(["git", "-C", c, "apply", os.path.abspath(d + "/patch.diff")], capture_output=True, text=True)
        if p.returncode: r["apply"] = p.stderr[:200]; return r
        if not only:
            r["demo"] = subprocess.run(["bash", d + "/demo.sh"], cwd=c, env=env, capture_output=True, timeout=300).returncode
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "-n", "3", "--benchmark-disable", "--randomly-seed=42", "--randomly-dont-reorganize", "-x"], cwd=c, env=env, capture_output=True, text=True)
            r["tests"] = t.stdout.strip().split("\n")[-1]
            r["tests_ok"] = t.returncode == 0
        e = dict(os.environ, KOMM_REPO=c, VERIF_SEED=seed, KOMM_PBT_EVIDENCE=f"/tmp/seedev_{id}")
        t = subprocess.run([V + "/run.py", "check", r["prop"]], env=e, capture_output=True, text=True)
        r["rc"] = t.returncode
        r["by"] = [l.split()[0].rstrip(":") for l in t.stdout.split("\n") if l.rstrip().endswith("FAILED")]
    except subprocess.TimeoutExpired: r["timeout"] = True
    finally:
        shutil.rmtree(c, ignore_errors=True); shutil.rmtree(f"/tmp/seedev_{id}", ignore_errors=True)
    return r
ids = a or sorted(os.listdir(V + "/seeded"))
bad = 0
with cf.ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, ids):
        good = only or (r.get("demo_clean") == 0 and r.get("demo") not in (0, None) and r.get("tests_ok"))
        print("VALID" if good else "INVALID", "CAUGHT" if r.get("rc") == 1 else "MISSED", json.dumps(r), flush=True)
