"""mut.py FILE OLD NEW CHECK...: runs checks against a changed scratch copy of /repo."""
import os
import shutil
import subprocess
import sys
import tempfile

f, old, new = sys.argv[1:4]
W = tempfile.mkdtemp(prefix="mut_")
try:
  subprocess.run(["cp", "-a", os.environ.get("MC_DEV_REPO", "/repo") + "/.", W], check=True)
  p = f"{W}/grain/_src/python/{f}"
  s = open(p).read()
  assert s.count(old) >= 1, "not found"
  open(p, "w").write(s.replace(old, new, 1))
  for c in sys.argv[4:]:
    r = subprocess.run(["/verif/check.py", c, "quick"], capture_output=True, text=True,
                       env=dict(os.environ, MC_DEV_REPO=W))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(c, "exit", r.returncode, len(v), "violations",
          next((l for l in r.stdout.splitlines() if l.startswith("  ")), "")[:300])
finally:
  shutil.rmtree(W)
