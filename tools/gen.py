"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-like python dicts (one module, PROPS)."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, NOTES

KEYS = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({k: p[k] for k in KEYS}, ensure_ascii=False) + "\n")
checks = []
na = [dict(n) for n in NOT_APPLICABLE]
for p in PROPS:
    script = f"checks/{p['id'].lower()}.py"
    if any(n["property"] == p["id"] for n in na):
        continue
    if not os.path.exists(os.path.join(VERIF, script)):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    cmd = f"/opt/venv/bin/python {script}"
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p.get("level", "exploration"),
                   "level_note": p["level_note"]})
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
