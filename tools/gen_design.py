#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written parts (tools/design/*.md) around a per-property section put together from
properties.jsonl, the rules registered by the checks (last evidence files), the known-findings file and seeded/."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
R = lambda f: open(os.path.join(V, f)).read()
props = [json.loads(l) for l in R("properties.jsonl").splitlines()]
notes = {m[0]: m[1].strip() for m in re.findall(r"^## (\w+)\n(.*?)(?=^## |\Z)", R("tools/design/notes.md"), re.S | re.M)}
kf = R("known_findings.jsonl").splitlines()
fixed = [l for l in kf if l.startswith("fixed:")]
known = [json.loads(l) for l in kf if l.startswith("{")]
seeds = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); seeds.setdefault(m["property"], []).append((os.path.basename(d), m))
out = [R("tools/design/head.md")]
out.append("\n## 3. Properties, one by one\n")
for p in props:
    i = p["id"]
    out.append(f"\n### {i} — {p['title']}\n\n**Specified.** {p['statement']}\n")
    e = json.load(open(os.path.join(V, "evidence", i + ".json")))
    c = e["coverage"]
    subs = ", ".join(f"`{s['name']}` ({s['evaluations']})" if s["evaluations"] else f"`{s['name']}` (known findings only)" for s in c["checks"])
    out.append(f"**Generated and checked** (sub-check, cases in the quick tier): {subs}.\n")
    out.append(f"{notes[i]}\n")
    out.append(f"**Rule and bounds.** {c['rule']}" + (" Bounds: " + "; ".join(e.get("assumptions", [])) + "." if e.get("assumptions") else "") + "\n")
    out.append(f"**Beyond the tests.** {p['why_tests_cant']}\n")
    fx = [l.split(None, 3) for l in fixed if f"property={i} " in l]
    if fx: out.append("**Defects found and repaired.** " + "; ".join(f"{l[3]} (`{l[2]}`)" for l in fx) + ".\n")
    ks = [k for k in known if k["property"] == i]
    if ks: out.append("**Known findings.** " + "; ".join(k["what"] for k in ks) + ".\n")
    if i in seeds: out.append("**Planted changes** (all caught now): " + ", ".join(f"`{n}`" for n, m in seeds[i]) + ".\n")
out.append(R("tools/design/tail.md"))
out.append("\n### Catch table\n\nEvery planted change passes the repository's stable tests and is reported by the check of its property (quick tier).\n\n| planted change | property | needs |\n|---|---|---|\n")
for i in seeds:
    for n, m in seeds[i]: out.append(f"| `{n}` | {i} | {m['needs'].replace('|', '/')} |\n".replace("\n", " ").rstrip() + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write("".join(x if x.endswith("\n") else x + "\n" for x in out))
