"""Writes properties.jsonl and MANIFEST.json from the catalog."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from catalog import P  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")

checks, missing = [], []
for p in P:
    path = os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": p["id"], "reason": "no check built for it yet"})
        continue
    level = None
    for line in open(path):
        if line.startswith("LEVEL"):
            level = line.split("=")[1].strip().strip('"')
    checks.append({"property": p["id"], "quick_cmd": f"bash run_check.sh {p['id']}",
                   "thorough_cmd": f"bash run_check.sh {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": "model checking: " + p["technique"], "level": level, "level_note": p["note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": missing,
               "notes": "Checks import the package straight from /repo's working tree; nothing is built and no hooks are needed."},
              fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(missing), "not claimed")
