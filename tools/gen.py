#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/registry.py and props/."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from registry import PROPS  # noqa: E402
try:
    from registry import NOT_APPLICABLE  # noqa: E402
except ImportError:
    NOT_APPLICABLE = {}

PY = "/opt/venv/bin/python"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 3, p["id"]
        fh.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    f = os.path.join(ROOT, "props", p["id"].lower() + ".py")
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
    elif os.path.exists(f):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"{PY} check.py {p['id']} quick",
            "thorough_cmd": f"{PY} check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "symbolic execution of the real Python source with Z3 deciding every branch and assertion; counterexamples replayed on the unmodified code",
            "level": "other",
            "level_note": "Bounded: holds for every input within the bounds listed in the evidence (see DESIGN.md); nothing is claimed outside them. Trusts Z3, the engine in sx/, the reference model in props/ and the listed assumptions.",
        })
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": f"{PY} -c 'import sys; sys.path.append(\"/opt/veriftools/pyvenv/lib/python3.12/site-packages\"); import z3; print(z3.get_version_string())'",
    "checks": checks,
    "not_applicable": na,
    "notes": "Run from /verif. check.py instruments /repo/src at import time on every run; nothing is generated ahead of time.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
