"""regenerates MANIFEST.json and bin/props.json from one table"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
from table import TABLE
props = {}
checks = []
for i in ids:
    t = TABLE[i]
    props[i] = t["meta"]
    checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": t["technique"], "level": t["meta"]["level"], "level_note": t["note"]})
json.dump(props, open(f"{ROOT}/bin/props.json", "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the checks load /repo's sources as they are. See DESIGN.md."}, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
