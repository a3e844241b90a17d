#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the plan"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = plan.claimed()
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']} quick",
                 "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json",
                 "technique": plan.technique(p["id"]), "level": plan.LEVEL, "level_note": plan.note(p["id"])}
                for p in props if p["id"] in claimed],
     "not_applicable": [{"property": p["id"], "reason": "check still being built"} for p in props if p["id"] not in claimed],
     "notes": "TLA+ specifications in spec/, bound to the crate by recordings of real runs (harness/) that TLC checks against the trace specifications. No hooks in /repo: the harness captures the sockets and the clock at the libc boundary."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
