"""C01: a checkpoint restored into a fresh iterator resumes exactly there."""
import os

from mc import hist
from mc import live
from mc import pipes
from mc import shm
from mc import simrun

TECHNIQUE = "explicit-state exploration of all operation histories on the real iterators"
LEVEL = "model_checking"
RULE = ("for each pipeline (source x chain of transformations x length) every"
        " history over next / save / restore into a fresh iterator / restore"
        " from JSON into a fresh iterator / start over, breadth first on the real"
        " iterator, states merged by canonical object graph, to a fixpoint; and for"
        " pipelines with threads or worker processes that read ahead, every such history"
        " up to a length under the default schedule")
ASSUMPTIONS = ("user functions in the pipeline are deterministic",)
OPS = ("next", "save", "fresh", "json", "new")
LIVE = ("n", "s", "R", "J", "e", "p")

pre_boot = simrun.install


# Left out of chains in the quick tier: they differ little from another.
DULL = ("map", "options", "seed", "limit99", "repeat3", "wshuffle3", "batch2drop",
        "mix", "repeatinf_limit7", "rebatch1drop", "rebatch3", "rebatch3drop",
        "rebatch4", "rebatch4drop", "ffd", "bfd", "zip3")


def pipelines(tier):
  names = pipes.names()
  for s in pipes.sources():
    for n in (0, 1, 2, 3, 5):
      if n or s != "mmix":
        yield (s, n, ())
  for s in ("src", "gen"):
    for c in names:
      for n in (0, 1, 2, 3, 5):
        if pipes.well_formed((c,)):
          yield (s, n, (c,))
  for b in ("batch2", "batch2drop"):
    for r in names:
      if r.startswith("rebatch"):
        for n in (0, 1, 2, 3, 5, 7):
          yield ("src", n, (b, r))
  short = [n for n in names if n not in DULL]
  for a in short if tier == "quick" else names:
    for b in short if tier == "quick" else names:
      if not pipes.well_formed((a, b)):
        continue
      for n in ((3,) if tier == "quick" else (0, 1, 2, 3, 4)):
        yield ("src", n, (a, b))
  for c in ("limit3", "repeat2", "options", "cache", "wshuffle"):
    yield ("mnones", 4, (c,))
  for s in ("mfilter", "mshuf", "mmix"):
    for c in short if tier == "quick" else names:
      if pipes.well_formed((c,)):
        yield (s, 2 if tier == "quick" else 3, (c,))
  if tier == "thorough":
    for a in short:
      for b in short:
        for c in short:
          if pipes.well_formed((a, b, c)):
            yield ("src", 2, (a, b, c))


def label(p):
  return f"{p[0]}({p[1]})" + "".join(">" + c for c in p[2])


def cases(tier):
  ps = list(dict.fromkeys(pipelines(tier)))
  n = 64 if tier == "quick" else 512
  return ([(f"chunk{i}", ps[i::n]) for i in range(n)]
          + live.cases(tier, [c for c in pipes.names() if c not in DULL]))


def explore(res, name, chunk, ops=OPS, slots=1, **kw):
  import time
  from mc.report import Hang, Violation, hang_guard
  if chunk and chunk[0][0] == "live":
    shm.install()
    live.explore_all(res, chunk, os.environ.get("VERIF_TIER", "quick"), LIVE, "R")
    return
  for p in chunk:
    t0 = time.time()
    try:
      with hang_guard(60):
        hist.explore(res, label(p), lambda: pipes.build(*p), slots=slots,
                     depth=40, max_states=3000, ops=ops, **kw)
    except Violation as e:
      res.violation(label(p), f"{label(p)}: {e}", {"case": name, "pipeline": label(p)})
    except Hang as e:
      res.violation(label(p), f"{label(p)}: does not terminate: {e}",
                    {"case": name, "pipeline": label(p)})
    if "MC_SLOW" in os.environ and time.time() - t0 > float(os.environ["MC_SLOW"]):
      print("slow", label(p), round(time.time() - t0, 2), flush=True)
