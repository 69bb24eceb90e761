#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sim/py")
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded search over schedules, delays and faults on the real binaries in a simulated OS"
NOTE = ("Sampled exploration: every run of the real controller and runner code under a seeded scheduler is judged by the property's oracle over the full history; "
        "a clean result is evidence for the explored runs, not a proof. Trusts the simulated libc boundary (Linux semantics as modelled, sequential consistency) and the scripted task programs.")
m = {"version": 1, "setup_cmd": "bash sim/build.sh build",
     "checks": [{"property": i, "quick_cmd": "python3 sim/py/check.py " + i, "thorough_cmd": "python3 sim/py/check.py " + i, "evidence_file": "evidence/%s.json" % i,
                 "technique": TECH, "level": "exploration", "level_note": props.PROPS[i].get("note", NOTE)} for i in ids if i in props.PROPS],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in props.PROPS],
     "notes": "No hooks in /repo: the seam is the libc boundary (sim/simx intercepts it), so the shipped sources run unchanged. Known findings: known_findings.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks")
