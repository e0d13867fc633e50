#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import checks
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS[p["id"]]
    tech = "property-based testing (rapid) with shrinking: " + c["note"]
    if c.get("race"):
        tech += "; generated concurrent schedules under the race detector"
    out["checks"].append({
        "property": p["id"], "quick_cmd": "python3 run.py check %s quick" % p["id"],
        "thorough_cmd": "python3 run.py check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": "exploration",
        "level_note": "Generated-input search against an explicit oracle: no counterexample among the cases counted in the evidence, within the generators' bounds (DESIGN.md); the reference model, rapid and the Go toolchain are trusted."})
json.dump(out, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
