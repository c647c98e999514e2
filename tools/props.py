#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props_data.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props_data import P, NA, NOTES

ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                **({"state": [{"name": a, "meaning": b} for a, b in p["state"]]} if p.get("state") else {}),
                **({"observe_at": p["observe"]} if p.get("observe") else {}),
                "hook_needed": None,
            },
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']}",
        "thorough_cmd": f"bash check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "other",
        "level_note": " ".join(p["note"].split()),
    } for p in P],
    "not_applicable": [{"property": p["id"], "reason": " ".join(p["reason"].split())} for p in NA],
    "notes": " ".join(NOTES.split()),
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(P), "claimed", len(NA), "not applicable")
