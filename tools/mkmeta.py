"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (run in /verif: python3-vt tools/mkmeta.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from meta import NA, PROPS  # noqa: E402

from otfcheck.__main__ import registry  # noqa: E402

reg = registry()
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["id"] in reg or p["id"] in NA:
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
ids = {p["id"] for p in PROPS}
assert set(reg) <= ids, set(reg) - ids
man = {
    "version": 1,
    "setup_cmd": "python3-vt -m compileall -q otfcheck && python3-vt -m otfcheck list",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3-vt -m otfcheck {p['id']} --tier quick",
            "thorough_cmd": f"python3-vt -m otfcheck {p['id']} --tier thorough",
            "technique": p.get("technique", "abstract interpretation with value numbering against a reference model"),
            "level": "other",
            "level_note": p["note"],
        }
        for p in PROPS
        if p["id"] in reg
    ],
    "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in PROPS if p["id"] in NA],
    "notes": "All checks parse /repo's current working tree and never import or run it.  See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
missing = [p["id"] for p in PROPS if p["id"] not in reg and p["id"] not in NA]
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable; no check yet:", missing)
