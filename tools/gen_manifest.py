#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
listed = subprocess.run([os.path.join(H, "run.py"), "list"], capture_output=True, text=True, check=True).stdout
have = {l.split()[0] for l in listed.splitlines() if l.strip()}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"./run.py check {i} --tier quick", thorough_cmd=f"./run.py check {i} --tier thorough",
            technique="property-based testing: Hypothesis-generated and enumerated cases against an independent executable oracle, with shrinking to a replay file",
            level="exploration", level_note="Generated-input search over the property's domain within the size bounds given in DESIGN.md; no proof of absence."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./run.py list", checks=checks, not_applicable=na,
         notes="Every check imports komm from /repo/src of the current working tree (pure Python, no build step needed) and uses only the public API. VERIF_SEED seeds all generators.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks;", len(na), "not claimed")
