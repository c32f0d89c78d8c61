"""Regenerates MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from manifest_table import CHECKS, NA, NOTES
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for pid, technique, note in CHECKS:
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} quick",
        "thorough_cmd": f"./check {pid} thorough",
        "technique": technique, "level": "model_checking", "level_note": note})
claimed = {c["property"] for c in checks}
na = [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in claimed]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [n["property"] for n in na], "not claimed")
