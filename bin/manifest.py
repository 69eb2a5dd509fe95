#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "pylib"))
import props
reg = props.ids()
allp = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
NA = {}
checks = []
for i in allp:
    if i not in reg:
        continue
    p = props.get(i)
    checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i}", "thorough_cmd": f"python3 bin/check.py {i} --thorough",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": f"TLA+ specification ({p['module']}.tla) checked with TLC; executions of the library recorded and validated against it with TLC",
                   "level": "model_checking",
                   "level_note": "Specification model checked exhaustively within small constants; the code is bound to it by TLC validating recorded executions, so the verdict on the code covers the executions generated. " + p.get("scope", "")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in allp if i not in reg],
     "notes": "See DESIGN.md. No hooks in /repo: the public API exposes the learned state. KNOWN_FINDINGS lists repaired defects."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
