#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when a check is added)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
TECH = json.load(open(os.path.join(V, "bin", "techniques.json")))
checks, na = [], []
for p in props:
    if p in TECH:
        checks.append({
            "property": p,
            "quick_cmd": f"bin/check.py {p} --tier quick",
            "thorough_cmd": f"bin/check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH[p][0],
            "level": "model_checking",
            "level_note": TECH[p][1],
        })
    else:
        na.append({"property": p, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specification in spec/, checked with TLC against traces recorded from the real crate "
                    "(harness/). No hooks in /repo: everything is observed through the public API."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
