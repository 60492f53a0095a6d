#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("TLC checks the property's invariants on the specification over the bounded model; "
        "every explored transition / a seeded corpus of recorded histories of the real code is compared with it. ")
NOTES = {
    "C13": "Exhaustive over 5 alphabets up to 4-6 symbols, plus seeded long nested values. Trusts TLC and the reading of rpm's expandMacro() in ValueNodes.tla.",
}
exec(open(os.path.join(HERE, "tools", "notes.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "notes.py")) else None
props = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "harness", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": f"VERIF_TIER=quick bin/check {p}",
            "thorough_cmd": f"VERIF_TIER=thorough bin/check {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": "TLA+ specification model-checked with TLC, bound by replay of its behaviours and trace validation",
            "level": "model_checking",
            "level_note": BASE + NOTES.get(p, ""),
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC; no hooks in /repo (the public API exposes the state). See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
