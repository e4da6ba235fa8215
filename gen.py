"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import re

from props import NOT_APPLICABLE, PROPS

here = os.path.dirname(os.path.abspath(__file__))
checks = []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                "state": [{"name": a, "meaning": b, "where": c}
                          for a, b, c in p.get("state", [])],
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            }}) + "\n")
        if p["id"] in NOT_APPLICABLE:
            continue
        assert os.path.exists(os.path.join(here, "checks", p["id"].lower() + ".py"))
        checks.append({
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick bash check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": p.get("level", "exploration"),
            "level_note": p["note"],
        })
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": "Every check is a Python monitor that imports the code from /repo's working "
             "tree (editable install plus sys.path), so there is nothing to rebuild and no "
             "hook in /repo; instrumentation is attached at run time from /verif. "
             "KNOWN_FINDINGS.txt lists repaired defects and open findings.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
