"""Writes properties.jsonl and MANIFEST.json from the table in meta.py (run by hand after editing it)."""
import json
import os

import meta

HERE = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for p in meta.PROPS:
    d = {
        "id": p["id"],
        "title": p["title"],
        "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            "observe_at": p.get("observe", []),
            "hook_needed": None,
        },
    }
    assert len(d["title"]) <= 80, d["title"]
    props.append(d)
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    })
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in props:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check is bounded exhaustive exploration of the real mentpy code, imported from /repo's working tree, against the "
             "reference models in mc/ref.py and the per-check oracles; no hooks in /repo. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
