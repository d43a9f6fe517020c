"""Writes MANIFEST.json (run after changing what is claimed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pps import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q pps", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.NA:
        m["not_applicable"].append({"property": i, "reason": props.NA[i]})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 -m pps.run %s --tier quick" % i, "thorough_cmd": "python3 -m pps.run %s --tier thorough" % i,
                        "technique": props.TECH.get(i, props.TECH_), "level": "other", "level_note": props.NOTE.get(i, props.NOTE_)})
m["notes"] = "Static analysis only: the checks parse /repo's sources and analyse them; nothing of /repo is imported or executed. Run in /verif."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not claimed")
