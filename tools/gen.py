#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the properties below."""
import glob, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import PROPS, NA

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        for g in p["files"] + [w for _, w in p["mech"]]:
            assert glob.glob("/repo/" + g), g
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash run.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
        "technique": p["tech"],
        "level": "other",
        "level_note": p["note"],
        "evidence_file": "evidence/%s.json" % p["id"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "All checks are static analyses of the current source of /repo: nothing of it is run. No hooks.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "checks", len(NA), "not applicable")
