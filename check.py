#!/opt/venv/bin/python
"""check.py ID [quick|thorough] [--only SUBSTR] [--replay FILE]: decides one property."""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(argv):
  # A fixed hash seed, so that an exploration is the same in every process.
  if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__), *argv])
  prop = argv[0]
  if prop == "--setup":
    from mc import boot
    boot.boot()
    print("grain importable")
    return 0
  tier = os.environ.get("VERIF_TIER", "quick")
  only = schedule = None
  rest = argv[1:]
  while rest:
    a = rest.pop(0)
    if a in ("quick", "thorough"):
      tier = a
    elif a == "--only":
      only = rest.pop(0)
    elif a == "--replay":
      import json
      with open(rest.pop(0)) as f:
        art = json.load(f)
      only = (art.get("artefact") or {}).get("case")
      schedule = (art.get("artefact") or {}).get("schedule")
      print("replaying case", only, "\n", art["text"])
  os.environ["VERIF_TIER"] = tier
  t0 = time.time()
  mod = importlib.import_module("checks." + prop.lower())
  if hasattr(mod, "pre_boot"):
    mod.pre_boot()
  from mc import boot, report
  boot.boot()
  res = report.Result()
  kw = {}
  try:
    cases = mod.cases(tier)
    if only and hasattr(mod, "scenarios"):
      from mc import cli
      cli.ONLY, cli.SCHEDULE = only, schedule
    elif only:
      cases = [c for c in cases if only in c[0]]
    res = report.run_cases(mod.explore, cases,
                           jobs=getattr(mod, "JOBS", None),
                           hang_s=getattr(mod, "HANG_S", {"quick": 300, "thorough": 3000})[tier])
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    tb = traceback.format_exc()
    res.violation(f"setup: {type(e).__name__}", f"setting up broke: {e}\n{tb}")
  return report.finish(prop, tier, mod.LEVEL, res, t0, rule=mod.RULE,
                       assumptions=getattr(mod, "ASSUMPTIONS", ()))


if __name__ == "__main__":
  sys.exit(main(sys.argv[1:]))
