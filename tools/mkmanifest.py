"""Writes MANIFEST.json: one check per property of properties.jsonl."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = json.load(open(os.path.join(here, "spec/levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in NOTE.get("not_applicable", {}):
        continue
    n = NOTE["checks"].get(i, NOTE["default"])
    checks.append({"property": i, "quick_cmd": f"python3-vt /verif/run.py {i} --tier quick", "thorough_cmd": f"python3-vt /verif/run.py {i} --tier thorough",
                   "technique": n["technique"], "level": n.get("level", "translation_validation"), "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q /verif/vg /verif/run.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOTE.get("not_applicable", {}).items()],
     "notes": NOTE["notes"]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
