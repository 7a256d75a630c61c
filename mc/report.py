"""Check bookkeeping: jobs, counts, violations, known findings, evidence."""
import faulthandler
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Violation(Exception):
  """The property is broken by the execution being explored."""


class Hang(BaseException):
  """An operation that has to finish did not."""


def hang_guard(seconds=60):
  """Context manager: raises Hang in the main thread when time runs out."""
  class _G:
    def __enter__(self):
      def h(signum, frame):
        raise Hang(f"no result after {seconds} s")
      self.old = signal.signal(signal.SIGALRM, h)
      signal.setitimer(signal.ITIMER_REAL, seconds)
    def __exit__(self, *a):
      signal.setitimer(signal.ITIMER_REAL, 0)
      signal.signal(signal.SIGALRM, self.old)
      return False
  return _G()


class Result:
  """What exploring one case covered, and what broke."""

  def __init__(self):
    self.states = 0
    self.transitions = 0
    self.executions = 0
    self.distinct = 0
    self.extra = {}
    self.violations = []  # (key, text, artefact)
    self.samples = []
    self.incomplete = []

  def violation(self, key, text, artefact=None):
    # One report per key and case is enough.
    if any(k == key for k, _, _ in self.violations):
      return
    self.violations.append((key, text, artefact))

  def merge(self, o):
    self.states += o.states
    self.transitions += o.transitions
    self.executions += o.executions
    self.distinct += o.distinct
    for k, v in o.extra.items():
      self.extra[k] = (max if k.startswith("longest") else lambda a, b: a + b)(self.extra.get(k, 0), v)
    for v in o.violations:
      self.violation(*v)
    if len(self.samples) < 5:
      self.samples += o.samples[:1]
    self.incomplete += o.incomplete


def _worker(fn, case, q, hang_s):
  try:
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    faulthandler.enable()
    res = Result()
    name = case[0]
    try:
      with hang_guard(hang_s):
        fn(res, *case)
    except Violation as e:
      res.violation(f"{name}: {e}", f"{name}: {e}", {"case": name})
    except Hang as e:
      tb = "".join(traceback.format_exc().splitlines(True)[-14:])
      res.violation(f"{name}: hang", f"{name}: does not terminate ({e})\n{tb}",
                    {"case": name, "trace": tb})
    except Exception as e:  # the harness or the code broke down
      tb = traceback.format_exc()
      res.violation(f"{name}: crash {type(e).__name__}",
                    f"{name}: unexpected {type(e).__name__}: {e}\n{tb}",
                    {"case": name, "trace": tb})
    q.send(res)
  except BaseException:  # pylint: disable=broad-except
    traceback.print_exc()
  finally:
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def run_cases(fn, cases, jobs=None, hang_s=240):
  """Runs fn(result, *case) for every case, each in a forked child."""
  jobs = jobs or min(8, os.cpu_count() or 4)
  ctx = mp.get_context("fork")
  total = Result()
  total.extra["cases"] = 0
  pending = list(cases)[::-1]
  live = {}  # conn -> (proc, case, start)
  from multiprocessing.connection import wait
  while pending or live:
    while pending and len(live) < jobs:
      case = pending.pop()
      r, w = ctx.Pipe(False)
      p = ctx.Process(target=_worker, args=(fn, case, w, hang_s))
      p.start()
      w.close()
      live[r] = (p, case, time.time())
    done = wait(list(live), timeout=1)
    for r in done:
      p, case, _ = live.pop(r)
      try:
        res = r.recv()
      except EOFError:
        res = Result()
        p.join()
        res.violation(f"{case[0]}: process died",
                      f"{case[0]}: the exploring process died with exit code"
                      f" {p.exitcode}", {"case": case[0]})
      r.close()
      p.join(10)
      if p.is_alive():
        p.kill()
      total.merge(res)
      total.extra["cases"] += 1
    now = time.time()
    for r in list(live):
      p, case, t0 = live[r]
      if now - t0 > hang_s + 30:
        p.kill()
        p.join()
        live.pop(r)
        r.close()
        res = Result()
        res.violation(f"{case[0]}: hang",
                      f"{case[0]}: no result after {hang_s + 30} s",
                      {"case": case[0]})
        total.merge(res)
  return total


def chunked(items, n, prefix):
  """Splits items in about n cases (name, chunk)."""
  items = list(items)
  n = max(1, min(n, len(items)))
  return [(f"{prefix}[{i}]", items[i::n]) for i in range(n)]


def load_known(prop):
  out = {}
  if os.path.exists(KNOWN):
    with open(KNOWN) as f:
      for line in f:
        line = line.strip()
        if not line:
          continue
        e = json.loads(line)
        if e.get("property") == prop and e.get("status") == "known":
          out[e["key"]] = e["what"]
  return out


def finish(prop, tier, level, res, t0, *, rule, assumptions=(), exhaustive=True,
           notes=None):
  """Prints the verdict, writes evidence/<prop>.json and returns the exit code."""
  known = load_known(prop)
  bad = []
  for key, text, art in res.violations:
    if key in known:
      print(f"KNOWN-FINDING: property={prop} {known[key]}")
      continue
    bad.append((key, text, art))
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  cov = {
      "states": res.states,
      "transitions": res.transitions,
      "traces_validated_against_impl": res.executions,
      "evaluations": res.executions,
      "distinct_nontrivial": res.distinct or res.states,
      "rule": rule,
      "samples": res.samples[:5] or ["(none)"],
      "exhaustive": bool(exhaustive and not res.incomplete),
      **{k: v for k, v in res.extra.items()},
  }
  if level != "exploration" and level != "fault_enumeration":
    cov.pop("evaluations")
    cov.pop("distinct_nontrivial")
  else:
    for k in ("traces_validated_against_impl",):
      cov.pop(k)
  if res.incomplete:
    cov["incomplete"] = res.incomplete[:20]
  if notes:
    cov["notes"] = notes
  ev = {
      "property": prop, "tier": tier, "seed": seed, "level": level,
      "coverage": cov, "wall_s": round(time.time() - t0, 2),
      "violations": len(bad),
      "assumptions": list(assumptions),
  }
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
    json.dump(ev, f, indent=1, default=str)
  print(f"{prop}: tier={tier} cases={res.extra.get('cases', 0)}"
        f" states={res.states} transitions={res.transitions}"
        f" executions={res.executions} distinct={res.distinct}"
        f" wall={ev['wall_s']}s exhaustive={cov['exhaustive']}")
  if not bad:
    return 0
  rd = os.path.join(VERIF, "evidence", "replay")
  os.makedirs(rd, exist_ok=True)
  if os.environ.get("MC_KEYS"):
    for key, text, art in bad:
      print("KEY", key.replace("\n", " ")[:300])
  for key, text, art in bad[:20]:
    h = hashlib.sha1(key.encode()).hexdigest()[:10]
    path = os.path.join(rd, f"{prop}-{h}.json")
    with open(path, "w") as f:
      json.dump({"property": prop, "key": key, "text": text, "artefact": art,
                 "tier": tier}, f, indent=1, default=str)
    print(f"VIOLATION property={prop} replay={path}")
    print("  " + text.replace("\n", "\n  ")[:3000])
  return 1
