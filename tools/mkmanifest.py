#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan  # noqa: E402

NA = "the check for this property has not been built yet"

checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in plan.PLAN:
        na.append({"property": p, "reason": NA})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "bash check.sh " + p,
        "thorough_cmd": "bash check.sh " + p,
        "technique": "TLA+ specification checked with TLC, and TLC validation of traces of the real code against it",
        "level": "model_checking",
        "level_note": plan.PLAN[p].get("note", plan.NOTE),
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the harness in /verif/harness is built against /repo as it is", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Verdicts come only from traces recorded from the real code and validated by TLC; see DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
