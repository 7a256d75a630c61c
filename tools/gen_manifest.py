"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
  i = p["id"]
  f = os.path.join(HERE, "checks", i.lower() + ".py")
  if not os.path.exists(f):
    na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    continue
  m = importlib.import_module("checks." + i.lower())
  checks.append({
      "property": i,
      "quick_cmd": f"./check.py {i} quick",
      "thorough_cmd": f"./check.py {i} thorough",
      "evidence_file": f"evidence/{i}.json",
      "technique": getattr(m, "TECHNIQUE", "exhaustive bounded enumeration on the real code"),
      "level": m.LEVEL,
      "level_note": getattr(m, "NOTE", " ".join(m.__doc__.split()) + " Within the bounds of"
                            " the tier; nothing is claimed beyond them."),
  })
out = {
    "version": 1,
    "setup_cmd": "./check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all instrumentation is done from outside, by replacing"
             " threading/queue/multiprocessing primitives before importing grain.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
  json.dump(out, f, indent=1)
  f.write("\n")
print(len(checks), "claimed;", len(na), "not claimed:", [x["property"] for x in na])
