#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and drivers/plans.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS
plans = json.load(open(os.path.join(HERE, "drivers", "plans.json")))
ids = set()
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, title, st, over, qt, why, files, mech in PROPS:
        assert len(title) <= 80, (pid, len(title))
        assert pid not in ids
        ids.add(pid)
        f.write(json.dumps({
            "id": pid, "title": title, "statement": st,
            "quantifier": {"over": over, "text": qt},
            "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    pid = p[0]
    if pid in plans:
        checks.append({
            "property": pid,
            "quick_cmd": f"/opt/venv/bin/python run.py {pid} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python run.py {pid} --tier thorough",
            "technique": "TLA+ specification, model checked with TLC; " + plans[pid]["technique"],
            "level": plans[pid].get("level", "model_checking"),
            "level_note": plans[pid]["note"],
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the checks drive the public API. The commits in /repo are repairs (fix:) only, see known_findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
