#!/usr/bin/env python3
"""Writes checks.json (what each check explores) and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = {}
NA = {}

def H(fn, what, quick=None, thorough=None, reach=None, qb=60, tb=400, **kw):
    d = {"fn": fn, "what": what, "reach": reach or [], "quick": {"params": quick or {}, "budget": qb},
         "thorough": {"params": thorough if thorough is not None else (quick or {}), "budget": tb}}
    d.update(kw)
    return d

def C(id, bounds, outside, harnesses, assumptions=None, note=None):
    checks[id] = {"title": id, "bounds": bounds, "outside": outside, "assumptions": assumptions or [], "harnesses": harnesses, "note": note}

exec(open(os.path.join(ROOT, "tools", "checks_def.py")).read())

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = {"version": 1,
       "setup_cmd": "cd engine && mkdir -p ../bin && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/engine .",
       "checks": [], "not_applicable": [],
       "notes": "Symbolic execution of the Go SSA form of the real code with z3 deciding every branch and assertion; see DESIGN.md."}
TECH = "bounded symbolic execution of the real Go code (SSA to SMT, z3), counterexamples replayed natively"
LN = ("Every path of the real code under the harness is explored symbolically and every assertion is decided by the solver for all inputs within the bounds recorded in the evidence; "
      "nothing is claimed outside the bounds. Trusted: go/ssa, the engine's translation (cross-validated by native replay of sampled paths), z3.")
for p in props:
    i = p["id"]
    if i in checks:
        man["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                              "technique": TECH, "level": "model_checking", "level_note": LN + " " + (checks[i].get("note") or "")})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "the harness for this property is not built yet")})
for c in checks.values():
    c.pop("note", None)
json.dump(checks, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks", [n["property"] for n in man["not_applicable"]])
