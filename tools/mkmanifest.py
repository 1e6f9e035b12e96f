#!/usr/bin/env python3
"""Write MANIFEST.json from sa/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = registry.CHECKS.get(i)
    if c:
        checks.append({"property": i, "quick_cmd": "python3 sa/check.py " + i,
                       "thorough_cmd": "python3 sa/check.py " + i,
                       "technique": "static analysis: " + c["technique"], "level": "other", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": registry.DECLINED.get(i, "no check yet: the rule is not built")})
m = {"version": 1, "setup_cmd": "python3 sa/facts.py", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds MIR facts of /repo's current tree (cached by content hash in .cache) and decides "
              "its property on them; no code of ntex-amqp is executed. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
