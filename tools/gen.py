#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS  # noqa

done = [p for p in PROPS if os.path.isfile(
    os.path.join(root, "harness", "checks", p["id"].lower() + ".py"))]
with open(os.path.join(root, "properties.jsonl"), "w") as out:
    for p in done:
        files = [f.strip() for f in p["files"].split(",")]
        mech = [{"name": n, "where": w} for n, w in p["mech"]]
        assert len(p["title"]) <= 80, p["id"]
        out.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]),
                           "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files, "mechanism": mech,
                        "observe_at": p.get("observe", []),
                        "hook_needed": None}}) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "harness/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "harness/run.sh {} quick".format(p["id"]),
        "thorough_cmd": "harness/run.sh {} thorough".format(p["id"]),
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["level_note"]} for p in done],
    "not_applicable": [],
    "notes": "Pure Python/numba project: the checks import /repo directly "
             "through sys.path (no build step), so every run sees the "
             "current working tree. No hooks were added to /repo: monitors "
             "attach from outside (audit hooks, buffer digests, numba "
             "dispatcher interception).",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")
print(len(done), "properties")
