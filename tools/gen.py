import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from catalog import PROPS
PROPS.sort(key=lambda p: p["id"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None},
        }
        if p["state"]:
            d["anchors"]["state"] = list(p["state"])
        if p["observe"]:
            d["anchors"]["observe_at"] = list(p["observe"])
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: its source is instrumented in memory at import time by sx/instr.py, regenerated on every run.",
}
for p in PROPS:
    have = os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))
    if p["na"] or not have:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
        continue
    m["checks"].append(
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"].strip(),
        }
    )
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import design
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
