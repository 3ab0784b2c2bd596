"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import NOT_APPLICABLE, NOTES, PROPS  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [
                {"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
man = {
    "version": 1,
    "setup_cmd": "./check --selftest",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} --tier quick",
        "thorough_cmd": f"./check {p['id']} --tier thorough",
        "technique": "contracts on the real functions, verification "
                     "conditions by symbolic execution, discharged by a "
                     "field normaliser and z3",
        "level": p.get("level", "proof"), "level_note": p["note"],
    } for p in PROPS if p["id"] not in na],
    "not_applicable": NOT_APPLICABLE,
    "notes": NOTES,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
