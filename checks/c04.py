"""C04: positions set by element index agree with positions reached by iterating."""
import itertools
import os

from checks import c01
from mc import catalog as cat
from mc import cli
from mc import hist
from mc import live
from mc import pipes
from mc import shm
from mc import simrun
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all operation histories on the real iterators,"
             " moves by index mixed with checkpoints")
RULE = ("for each pipeline that supports indexed positions (source x chain of"
        " transformations x length) every history over next / save / restore in place /"
        " restore fresh / set the index to each position, live or on a fresh iterator /"
        " read the index, breadth first on the real iterator, to a fixpoint; and for"
        " pipelines with threads or worker processes that read ahead, every such history"
        " up to a length under the default schedule")
ASSUMPTIONS = ("user functions in the pipeline are deterministic",
               "threads and worker processes run under the default schedule here (all: S01..S03)")
OPS = ("next", "save", "restore", "fresh", "index", "freshindex", "getindex")
LIVE = ("n", "e", "s", "r", "i0", "i2", "I1", "g")

pre_boot = simrun.install


def chain_ops():
  g = cat.g()
  e = g.experimental
  t = {}
  t["map"] = lambda d: d.map(cat.m_inc)
  t["random"] = lambda d: d.random_map(cat.m_rand, seed=7)
  t["index"] = lambda d: d.map_with_index(cat.m_idx)
  t["batch2"] = lambda d: d.batch(2, batch_fn=cat.tolist_fn)
  t["batch2drop"] = lambda d: d.batch(2, drop_remainder=True, batch_fn=cat.tolist_fn)
  t["batch3"] = lambda d: d.batch(3, batch_fn=cat.tolist_fn)
  t["batch3drop"] = lambda d: d.batch(3, drop_remainder=True, batch_fn=cat.tolist_fn)
  t["limit2"] = lambda d: e.LimitIterDataset(d, 2)
  t["limit9"] = lambda d: e.LimitIterDataset(d, 9)
  t["prefetch0"] = lambda d: e.ThreadPrefetchIterDataset(d, prefetch_buffer_size=0)
  t["options"] = lambda d: e.WithOptionsIterDataset(d, e.DatasetOptions())
  t["interleave1"] = lambda d: e.InterleaveIterDataset([d], cycle_length=1, iter_buffer_size=0)
  t["interleave2"] = lambda d: e.InterleaveIterDataset([d], cycle_length=2, iter_buffer_size=0)
  return t


def sources():
  g = cat.g()
  M = g.MapDataset
  one = lambda d: g.experimental.InterleaveIterDataset([d], cycle_length=1, iter_buffer_size=0)
  return {
      "src": cat.src,
      "shuf": lambda n: M.range(n).seed(3).shuffle().random_map(cat.m_rand).to_iter_dataset(cat.ro()),
      "twice": lambda n: M.range(n).repeat(2).map_with_index(cat.m_idx).to_iter_dataset(cat.ro()),
      "mapinterleave": lambda n: one(M.range(n)),
  }


def pipelines(tier):
  names = sorted(chain_ops())
  q = tier == "quick"
  for s in ("src", "shuf", "twice", "mapinterleave"):
    for n in range(0, 4 if q else 6):
      yield s, n, ()
  for c in names:
    for n in ((0, 1, 3, 4) if q else range(7)):
      yield "src", n, (c,)
    yield "shuf", 3, (c,)
    yield "mapinterleave", 3, (c,)
  dull = ("map", "options", "limit9", "batch3drop", "interleave2") if q else ()
  names = [c for c in names if c not in dull]
  for a, b in itertools.product(names, names):
    if a == b == "interleave1" and q:
      continue
    for n in (3,) if q else (0, 1, 2, 3, 4, 5):
      yield "src", n, (a, b)
  if not q:
    for c in itertools.product(names, repeat=3):
      for n in (3, 5):
        yield "src", n, c


def cases(tier):
  ps = list(dict.fromkeys(pipelines(tier)))
  n = 64 if tier == "quick" else 512
  ok = lambda p: p[0] != "aheadf" and p[3] not in ("mp2", "threads2", "ileave")
  return ([(f"chunk{i}", ps[i::n]) for i in range(n)]
          + live.cases(tier, sorted(chain_ops()), ok))


scenarios = pipelines
_T = None


def build(p):
  global _T
  if _T is None:
    _T = chain_ops(), sources()
  d = _T[1][p[0]](p[1])
  for c in p[2]:
    d = _T[0][c](d)
  return d


def explore(res, name, chunk):
  from mc import inline
  if chunk and chunk[0][0] == "live":
    shm.install()
    live.explore_all(res, chunk, os.environ.get("VERIF_TIER", "quick"), LIVE, "g",
                     {k: (f, None) for k, f in chain_ops().items()}, most=3)
    return
  inline.patch()
  for p in chunk:
    if cli.skip(c01.label(p)):
      continue
    try:
      with hang_guard(150):
        hist.explore(res, c01.label(p), lambda: build(p), slots=1, depth=40,
                     max_states=3000, ops=OPS)
    except Violation as e:
      res.violation(c01.label(p), f"{c01.label(p)}: {e}",
                    {"case": c01.label(p)})
    except Hang as e:
      res.violation(c01.label(p), f"{c01.label(p)}: does not terminate: {e}", {"case": name})
