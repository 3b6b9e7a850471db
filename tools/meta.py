#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and checks.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from checks import CHECKS  # noqa: E402
from properties import NOT_APPLICABLE, PROPERTIES  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        q = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }
        if "observe" in p:
            q["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(q) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 -B pbt/vbuild.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 -B run.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 -B run.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p.get("technique", "property-based testing"),
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPERTIES if p["id"] in CHECKS],
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}
assert {p["id"] for p in PROPERTIES} == set(CHECKS) | set(NOT_APPLICABLE), {p["id"] for p in PROPERTIES} ^ (set(CHECKS) | set(NOT_APPLICABLE))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
