"""C02: rewinding a live iterator in place, and saved states that never change."""
import os

from checks import c01
from mc import live
from mc import pipes
from mc import shm
from mc import simrun

TECHNIQUE = "explicit-state exploration of all operation histories on the real iterators"
LEVEL = "model_checking"
RULE = ("for each pipeline every history over next / save into one of two slots /"
        " set_state on the live iterator (state object or its JSON image) / start"
        " over, to a fixpoint of canonical object graphs; every saved state is"
        " compared with its copy after every operation; and for pipelines with threads"
        " or worker processes that read ahead, every such history up to a length under"
        " the default schedule")
ASSUMPTIONS = c01.ASSUMPTIONS
OPS = ("next", "save", "restore", "jsonin", "new")
LIVE = ("n", "s", "r", "j", "e", "p")
label = c01.label

pre_boot = simrun.install


def pipelines(tier):
  names = pipes.names()
  for s in pipes.sources():
    yield (s, 2, ())
  for s in ("src", "gen"):
    for c in names:
      for n in (0, 1, 2, 3):
        if pipes.well_formed((c,)):
          yield (s, n, (c,))
  for r in names:
    if r.startswith("rebatch"):
      yield ("src", 5, ("batch2", r))
  short = [n for n in names if n not in c01.DULL]
  for a in short if tier == "quick" else names:
    for b in short if tier == "quick" else names:
      if pipes.well_formed((a, b)):
        yield ("src", 2, (a, b))
        if tier != "quick":
          yield ("src", 3, (a, b))
          yield ("gen", 2, (a, b))
  for s in ("mfilter", "mshuf", "mmix"):
    for c in short if tier == "quick" else names:
      if pipes.well_formed((c,)):
        yield (s, 1 if tier == "quick" else 2, (c,))


def cases(tier):
  ps = list(dict.fromkeys(pipelines(tier)))
  n = 96 if tier == "quick" else 512
  return ([(f"chunk{i}", ps[i::n]) for i in range(n)]
          + live.cases(tier, [c for c in pipes.names() if c not in c01.DULL]))


def explore(res, name, chunk):
  tier = os.environ.get("VERIF_TIER", "quick")
  if chunk and chunk[0][0] == "live":
    shm.install()
    live.explore_all(res, chunk, tier, LIVE, "r")
    return
  for p in chunk:
    # Two slots while the pipeline is short, one slot for chains.
    slots = 2 if (len(p[2]) < 2 and p[1] < 3 and p[0] in ("src", "gen")
                  or tier != "quick") else 1
    c01.explore(res, name, [p], ops=OPS, slots=slots)
