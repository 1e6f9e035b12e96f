#!/usr/bin/env python3
"""record a repaired defect: fixed.py PROPERTY COMMIT TEXT"""
import json, os, sys
p, h, w = sys.argv[1:4]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl"), "a") as f:
    f.write(json.dumps({"property": p, "kind": "fixed", "key": h, "what": "fixed: property=%s %s %s" % (p, h, w)}) + "\n")
