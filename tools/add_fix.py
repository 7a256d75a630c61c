"""add_fix.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.jsonl."""
import json, sys
prop, commit, what = sys.argv[1:4]
with open("/verif/known_findings.jsonl", "a") as f:
  f.write(json.dumps({"property": prop, "status": "fixed", "commit": commit,
                      "what": f"fixed: property={prop} {commit} {what}"}) + "\n")
