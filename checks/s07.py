"""S07: concurrent access to one dataset gives every reader its own correct element."""
import threading

from checks import i08
from mc import catalog as cat
from mc import cli
from mc import lines
from mc import mapds
from mc import sched
from mc import vals
from mc.report import Violation

LEVEL = "model_checking"
TECHNIQUE = ("controlled scheduler over the real random-access code: all schedules of two or"
             " three reading threads up to a deviation bound, preempted at every line")
RULE = ("one execution = one schedule of two or three threads reading a freshly built"
        " pipeline, every read compared with a lone sequential read of that index")

pre_boot = sched.install


def watch():
  import glob
  import os
  from grain._src.python import data_sources
  from grain._src.python.dataset import dataset
  d = os.path.dirname(dataset.__file__)
  fs = [f for f in glob.glob(os.path.join(d, "transformations", "*.py"))
        if not f.endswith("_test.py")]
  sched.watch(dataset, data_sources, *fs, *lines.files())


def extra():
  g = cat.g()
  e = g.experimental
  MD = g.MapDataset

  class R(g.transforms.RandomMap):
    def random_map(self, x, rng):
      return lines.rand(x, rng)

  class Multi:
    """A stateless user function object with several lines."""

    def __call__(self, x):
      y = cat.tmap(lambda v: v + 1, x)
      return y

  t = dict(i08.extra())
  t["rand"] = (lambda d: d.random_map(lines.rand, seed=11), None)
  t["randT"] = (lambda d: d.random_map(R(), seed=12), None)
  t["randrow"] = (lambda d: d.random_map(lines.rand_row, seed=13), None)
  t["randbatch"] = (lambda d: d.random_map(lines.rand_row, seed=14).batch(2), None)
  t["rowbatch"] = (lambda d: d.map(lines.row).batch(2), None)
  t["rowbatchpar"] = (lambda d: d.map(lines.row).batch(2).map(cat.Fn(lambda b: b["a"].sum())), None)
  t["slow"] = (lambda d: d.map(Multi()), None)
  t["seeded"] = (lambda d: d.seed(9).shuffle().random_map(lines.rand_row), None)
  t["pipeline"] = (
      lambda d: d.seed(3).shuffle().repeat(2).random_map(lines.rand_row).filter(cat.f_odd), None)
  t["epochs"] = (lambda d: d.seed(3).repeat(2).shuffle().random_map(lines.rand_row), None)
  t["mixrand"] = (
      lambda d: MD.mix([d.random_map(lines.rand_row, seed=1), MD.source([70, 71, 72])
                        .random_map(lines.rand_row, seed=1)], [1, 2]), None)
  return t


SINGLE = ("list", "native", "range", "custom", "nested")


def ar_source():
  from mc import boot
  import os
  from array_record.python import array_record_module
  p = os.path.join(boot.scratch(), f"s07_{os.getpid()}.array_record")
  if not os.path.exists(p):
    w = array_record_module.ArrayRecordWriter(p, "group_size:1")
    for i in range(4):
      w.write(b"rec%d" % i)
    w.close()
  return p


def plans(n):
  """What each thread reads: an int is one element, a tuple a batched read."""
  m = n - 1
  yield "two", [[0, m], [m, 0]]
  yield "epochs", [[0, n], [n, 2 * n + m]]
  yield "batch", [[(0, m)], [(m, n)]]
  yield "both", [[0, (m, 0)], [m]]
  yield "three", [[0], [m], [min(1, m)]]
  yield "iters", ["it", "it"]
  yield "pair", [[0, m], [m]]


def scenarios(tier):
  names = sorted(extra())
  q = tier == "quick"
  new = ("rand", "randT", "randrow", "randbatch", "rowbatch", "slow", "seeded", "pipeline",
         "epochs", "mixrand", "random", "shuffle", "wshuffle")
  for s in SINGLE:
    for p, _ in plans(3):
      yield f"{s}/3//{p}", s, 3, (), p, 1 if q and p == "iters" else 2
  for c in ("randrow",) if q else names:
    for k in range(16):
      yield f"native/2/{c}/pair", "native", 2, (c,), "pair", 2, (k, 16)
  for c in names:
    if not mapds.well_formed((c,)):
      continue
    for p, _ in plans(4):
      if q and (p in ("iters", "three") and c in i08.DULL or p == "pair"):
        continue
      yield f"native/3/{c}/{p}", "native", 3, (c,), p, 1
      if not q:
        yield f"list/3/{c}/{p}", "list", 3, (c,), p, 2
  for a in (names if not q else new):
    for b in names:
      if b in i08.DULL and q:
        continue
      if a in ("rand", "randT") and (b not in ("shuffle", "repeat2", "[1:]")):
        continue
      if "rand" not in a and "rand" not in b and q and a not in ("shuffle", "slow"):
        continue
      if "batch" in b and b != "batch3list" and a in ("seeded", "rowbatch", "randbatch"):
        continue
      if a in ("pipeline", "randbatch") and b.startswith("batch"):
        continue
      if q and a in ("pipeline", "epochs", "seeded", "mixrand", "randbatch", "rowbatch"):
        continue
      if not mapds.well_formed((a, b)):
        continue
      for p in (("both",) if q else ("two", "epochs", "both", "three", "iters")):
        yield f"native/3/{a},{b}/{p}", "native", 3, (a, b), p, 1
  for p, _ in plans(4):
    yield f"arrayrecord/4//{p}", "arrayrecord", 4, (), p, 1
    yield f"arrayrecord/4/shuffle/{p}", "arrayrecord", 4, ("shuffle",), p, 1


def cases(tier):
  sc = list(scenarios(tier))
  k = 64 if tier == "quick" else 512
  return [(f"chunk{i}", sc[i::k]) for i in range(k)]


_O = None


def make(s, n, chain):
  global _O
  if _O is None:
    _O = extra()
  g = cat.g()
  if s == "arrayrecord":
    d = g.MapDataset.source(g.sources.ArrayRecordDataSource(ar_source()))
  else:
    d, _ = mapds.sources()[s](n)
  for c in chain:
    d = _O[c][0](d)
  return d


def body(build, plan, want, order):
  def run(e):
    d = build()
    got = [[] for _ in plan]
    def read(k, todo):
      try:
        if todo == "it":
          it = iter(d.to_iter_dataset(cat.ro()))
          for x in it:
            got[k].append(("value", vals.norm(x)))
          it.close()
          return
        for i in todo:
          v = d._getitems(list(i)) if isinstance(i, tuple) else d[i]
          got[k].append(("value", vals.norm(v)))
      except Exception as x:  # pylint: disable=broad-except
        got[k].append(("error", f"{type(x).__name__}: {x}"))
    ts = [threading.Thread(target=read, args=(k, p)) for k, p in enumerate(plan)]
    for t in ts:
      t.start()
    for t in ts:
      t.join()
    for k, p in enumerate(plan):
      if got[k] != want[k]:
        raise Violation(f"thread {k} reading {p} got {str(got[k])[:300]},"
                        f" alone it gets {str(want[k])[:300]} (others: {plan})")
    # What the threads left behind still gives the same.
    with sched.no_points():
      after = [vals.norm(d[i]) for i in range(len(d))]
    if after != order:
      raise Violation(f"after the threads ended the pipeline gives {str(after)[:300]},"
                      f" before {str(order)[:300]}")
  return run


def explore(res, name, scs):
  watch()
  for nm, s, n, chain, pn, budget, *shard in scs:
    if cli.skip(nm):
      continue
    build = lambda: make(s, n, chain)
    try:
      d = build()
    except ValueError as x:
      if "length 0" in str(x):
        continue
      raise
    m = len(d)
    if m == 0:
      continue
    plan = dict(plans(m))[pn]
    one = lambda i: vals.norm(build()[i])
    want = []
    order = [one(i) for i in range(m)]
    for p in plan:
      if p == "it":
        want.append([("value", x) for x in order if x != vals.norm(None)])
      else:
        want.append([("value", vals.norm([build()[j] for j in i])) if isinstance(i, tuple)
                     else ("value", one(i)) for i in p])
    sched.explore(res, nm, body(build, plan, want, order), budget=budget, mode="line", free=False,
                  shard=shard[0] if shard else (0, 1))
