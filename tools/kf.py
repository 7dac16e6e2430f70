#!/usr/bin/env python3
"""kf.py fixed <prop> <commit> <what>  |  kf.py known <prop> <key> <what>   appends to known_findings.jsonl"""
import json, sys
kind, prop, key, what = sys.argv[1:5]
if kind == "fixed":
    d = dict(property=prop, status="fixed", commit=key, record=f"fixed: property={prop} {key} {what}")
else:
    d = dict(property=prop, status="known", key=key, what=what)
open(__file__.replace("tools/kf.py", "known_findings.jsonl"), "a").write(json.dumps(d) + "\n")
