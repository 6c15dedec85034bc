#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claims below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import check

REPLAY = "TLA+ specification checked with TLC; %s"
NOTES = {}
for pid, (tech, note) in check.CLAIMS.items():
    NOTES[pid] = (REPLAY % tech, note)
checks = []
for pid in sorted(check.PLAN):
    tech, note = NOTES[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s" % pid,
        "thorough_cmd": "python3 check.py %s --thorough" % pid,
        "technique": tech,
        "level": "model_checking",
        "level_note": note,
    })
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": i, "reason": check.NOT_APPLICABLE.get(i, "check under construction")} for i in ids if i not in check.PLAN]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness (/verif/harness) uses the exported API only. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
