#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a checks/<id>.py is claimed, the rest is not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}  # id -> reason
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    f = V + "/checks/%s.py" % i
    if os.path.exists(f):
        src = open(f).read()
        def const(n, d):
            ns = {}
            m = re.search(r'^%s = (\((?:.|\n)*?\n?\)|"[^"]*")$' % n, src, re.M)
            return eval(m.group(1)) if m else d
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i,
                       "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": const("TECHNIQUE", "TLA+ specification checked with TLC; traces of the real code validated against it"),
                       "level": "model_checking",
                       "level_note": const("NOTE", "TLC explores the specification exhaustively within the stated bounds; the implementation is bound to it by validating recorded traces.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
