#!/opt/veriftools/pyvenv/bin/python
"""Writes properties.jsonl and MANIFEST.json from props.py and the rule registry."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NA
from flowlint.checks import registry

claimed = registry.PROPERTIES
na = dict((p["id"], r) for p, r in NA)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS + [p for p, _ in NA]:
        if p["id"] not in claimed and p["id"] not in na:
            continue
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in claimed:
        continue
    P = claimed[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.py {p['id']}",
        "thorough_cmd": f"./check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": P.technique,
        "level": "other",
        "level_note": (P.note or "Static: every obligation is decided on the value terms computed from /repo's current "
                       "source for symbolic inputs (no execution, no sampling, no unrolling); an obligation "
                       "about a construct the analysis does not model is reported as undecided, not as "
                       "held. Trusts the modelled meaning of the library operations; real arithmetic, no rounding."),
    })
json.dump({"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python -m compileall -q flowlint || true",
           "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
           "notes": "All checks are static: see DESIGN.md. No hooks in /repo."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(NA), "not applicable")
