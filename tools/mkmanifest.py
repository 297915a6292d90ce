#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties whose checks exist are claimed, the others listed as not yet claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
sys.dont_write_bytecode = True
import run
TECH = {}
NOTE = ("Every behaviour of the bounded model is enumerated by TLC and replayed into the code built from /repo, and recorded executions "
        "of the code are validated against the specification; exhaustive within the model bounds in DESIGN.md, sampled beyond them. "
        "Trusted: TLC, the specification's reading of the JVM specification, and the harness's projection of values.")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in run.CHECKS:
        checks.append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 checks/run.py {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 checks/run.py {p['id']}",
                       "technique": run.TECH.get(p["id"], "TLA+ specification checked with TLC; model behaviours replayed into the code and recorded executions validated against the specification"),
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p["id"], "reason": "the specification covers it, but its conformance check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness crate uses the public API only. The fix: commits in /repo are listed in known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1); h.write("\n")
print(len(checks), "claimed,", len(na), "not")
