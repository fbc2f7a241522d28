#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property with a module in pbt/checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NOTES = {
}
DEFAULT = ("property-based testing (Hypothesis): generated documents against a reference model", "")

exec(open(os.path.join(HERE, "tools", "levelnotes.py")).read())

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "pbt", "checks", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "the check is not built yet"})
        continue
    technique, note = NOTES.get(pid, DEFAULT)
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid}",
        "thorough_cmd": f"./check {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": technique,
        "level": "exploration",
        "level_note": note or "generated inputs only: nothing is claimed for inputs outside the generators described in DESIGN.md; trusts the oracle written in /verif/pbt",
    })
manifest = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing,
            "notes": "No hooks: all checks use the public interface of the package imported from /repo's working tree. The seed is VERIF_SEED."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "not claimed")
