#!/usr/bin/env python3
"""Writes DESIGN.md from its parts (see tools/design_head.md)."""
import json, os, re, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(p): return open(os.path.join(R, p)).read()
ns = {}; exec(rd("tools/design_oracles.py"), ns); O = ns["O"]
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
checks = json.loads(rd("checks.json"))
if isinstance(checks, dict) and "checks" in checks: checks = checks["checks"]
cb = checks if isinstance(checks, dict) else {c["id"]: c for c in checks}
known = rd("known-findings.txt").splitlines()
o = [rd("tools/design_head.md"), "## 3. Properties\n"]
times = json.loads(rd("tools/times.json")) if os.path.exists(os.path.join(R, "tools/times.json")) else {}
for p in props:
    i = p["id"]; c = cb[i]
    o.append(f"### {i}: {p['title']}\n")
    o.append(p["statement"] + "\n")
    o.append("*Decided by*: " + O[i] + "\n")
    o.append("*Why tests cannot*: " + p["why_tests_cant"] + "\n")
    o.append("*Harnesses* (quick parameters / thorough parameters):\n")
    for h in c["harnesses"]:
        q, t = h.get("quick"), h.get("thorough")
        def par(x):
            if x is None: return "not run"
            x = x.get("params", x) if isinstance(x, dict) else x
            return ", ".join(f"{k}={v}" for k, v in x.items()) or "defaults"
        o.append(f"- `{h['fn']}`: {h.get('what','')} ({par(q)} / {par(t)})")
    o.append("\n*Bounds*: " + "; ".join(c["bounds"]) + ".\n")
    o.append("*Outside*: " + "; ".join(c["outside"]) + ".\n")
    if i in times: o.append(f"*Cost*: {times[i]} s (quick, 8 cores).\n")
    fx = [l.split(" ", 3) for l in known if l.startswith("fixed: property=" + i + " ")]
    if fx:
        o.append("*Defects found and repaired*:\n")
        for f in fx: o.append(f"- {f[2]}: {f[3]}")
        o.append("")
    sd = []
    for s in sorted(os.listdir(os.path.join(R, "seeded"))):
        m = json.loads(rd(f"seeded/{s}/meta.json"))
        if m["property"] == i: sd.append((s, m))
    if sd:
        o.append("*Planted bugs* (`seeded/`):\n")
        for s, m in sd:
            r = times.get("seed:" + s, "")
            o.append(f"- {s}: {m['what_it_breaks']}; needs {m['needs']}. {r}")
        o.append("")
o.append(rd("tools/design_tail.md"))
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(o))
