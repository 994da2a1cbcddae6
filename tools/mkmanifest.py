#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
}
TECH = "Verus contracts on the functions extracted from /repo at each run (deductive proof, no bound)"
LN = ("Every obligation in the property's call-graph closure is discharged by Verus/Z3 for all inputs; nothing is bounded on the "
      "unchanged tree. Assumed: contracts of ring, webpki, rand and a few core functions (see evidence assumed_items). A function "
      "that a change moves out of the verifier's reach is searched natively and then reported as exploration, never as proved.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s quick" % i,
        "thorough_cmd": "python3 tools/check.py %s thorough" % i,
        "technique": TECH,
        "level": "proof",
        "level_note": NOTE.get(i, "") + LN,
    })
m["notes"] = "No hooks: the contracts live in /verif/contracts and are spliced into a mechanical extraction of /repo/src. Repairs of genuine defects are the fix: commits in /repo, listed in known-findings.txt."
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
