#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check for every TestPnn in the harness."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for fn in glob.glob(ROOT + "/harness/*_test.go"):
    have |= set(re.findall(r"^func Test(P\d\d)\(", open(fn).read(), re.M))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
T = {}
exec(open(ROOT + "/tools/techniques.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "property-based testing: " + tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
