#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "The specifications are in TLA+ (spec/), checked with TLC. Each check rebuilds the conformance driver (harness/) and, where it needs them, the real programs, from /repo's working tree. No hooks in /repo: the drivers use the exported API and the built programs; checks which build a program add an init file through go build -overlay (overlay/).",
}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
