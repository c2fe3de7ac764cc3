#!/usr/bin/env python3
"""Writes seeded/<id>/ from a definition file: exec'd, it appends to S via add(...).  Usage: mkseed.py DEFS.py"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
S = []
def add(id, prop, edits, demo, needs, breaks): S.append((id, prop, edits, demo, needs, breaks))
exec(open(sys.argv[1]).read(), dict(add=add))
base = tempfile.mkdtemp(prefix="mkseed_")
subprocess.run(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
subprocess.run(["git", "clone", "-q", "/repo", base + "/r"], check=True)
def orig_line(path, text):
    out = subprocess.run(["git", "-C", "/repo", "show", f"60fda87:{path}"], capture_output=True, text=True).stdout
    return text in out.split("\n")
for id, prop, edits, demo, needs, breaks in S:
    r = base + "/r"
    subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
    ok = True
    for f, old, new in edits:
        p = f"{r}/src/komm/{f}"; s = open(p).read()
        if s.count(old) != 1: print(f"{id}: pattern occurs {s.count(old)} times in {f}: {old!r}"); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    d = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
    cur = None
    rem = []
    for l in d.split("\n"):
        if l.startswith("--- a/"): cur = l[6:]
        elif l.startswith("-") and not l.startswith("---"): rem.append(orig_line(cur, l[1:]))
    if not any(rem): print(f"{id}: WARNING no removed line is original ({len(rem)} removed)")
    elif not all(rem): print(f"{id}: note: some removed lines come from fix commits")
    D = f"{ROOT}/{id}"; os.makedirs(D, exist_ok=True)
    open(D + "/patch.diff", "w").write(d)
    open(D + "/demo.py", "w").write(demo.strip() + "\n")
    open(D + "/demo.sh", "w").write('#!/bin/bash\n# Exit 0 when the property holds, nonzero otherwise.\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(D + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + "/meta.json", "w"), indent=1)
shutil.rmtree(base)
