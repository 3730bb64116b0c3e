"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
import sys
sys.path.insert(0, os.path.join(V, "harness"))
import importlib.util
src = open(os.path.join(V, "harness", "check.py")).read()
ns = {}
exec(src[src.index("WHERE"):src.index("def main")], ns)
TECH = json.load(open(os.path.join(V, "harness", "technique.json")))
checks, na = [], []
for i in ids:
    if i in ns["WHERE"]:
        checks.append({"property": i, "quick_cmd": "bash bin/check %s quick" % i, "thorough_cmd": "bash bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i][0], "level": "model_checking", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; harness/ drives the real code and has TLC judge what it did. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
