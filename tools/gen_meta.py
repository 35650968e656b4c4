"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks present."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P          # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(ROOT, "mon", "checks", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "./run.py %s" % p["id"],
                       "thorough_cmd": "./run.py %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": p["level"],
                       "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -m mon.build plain",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the monitors observe the public API, the sanitizers "
                    "instrument out-of-tree builds of /repo's current tree."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
