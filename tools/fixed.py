"""Rewrite the "fixed:" lines of known_findings.jsonl from /repo's fix commits (development helper)."""
import re, subprocess
PROP = {"repr of finite": "A03", "bits_to_int accepts": "A01", "accuracy of the Marcum": "U02", "boxplus": "U02",
        "BinaryPolynomial.coefficients": "B01", "information sets": "B01", "coset structure": "B03",
        "syndrome of non-systematic": "B01", "ReedDecoder": "D01", "invariant factors": "C02", "free distance": "C02",
        "memoryless high-rate": "C01", "BCJR decoder reversed": "C04", "trellis algorithms": "F01,C05",
        "zero termination of memoryless": "C03", "refuse tail-biting": "C03"}
PROP.update(__import__("json").load(open("/verif/tools/fixed_props.json")))
p = "/verif/known_findings.jsonl"
keep = [l for l in open(p).read().splitlines() if l.startswith("{")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, m = l.split(" ", 1)
    if not m.startswith("fix: "): continue
    props = next((v for k, v in PROP.items() if k in m), None)
    assert props, m
    for q in props.split(","): keep.append(f"fixed: property={q} {h} {m[5:]}")
open(p, "w").write("\n".join(keep) + "\n")
