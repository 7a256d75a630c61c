"""I13: random transformations are a pure function of seed, stage and element index."""
import itertools
import json

import numpy as np

from mc import catalog as cat
from mc import hist
from mc import report
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of all stacks of random and other transformations up to"
             " a depth, of access orders and of checkpoint positions on the real code; every"
             " access order compared with the sequential one, all draws compared pairwise")
RULE = ("one evaluation = one pipeline x way of reading it (forwards, backwards, every"
        " ordered pair of indices, batched, as a stream with 0 and 2 threads, restored at"
        " every position, by element index, on other data), each draw of each random stage"
        " recorded; non-trivial: at least one random stage")


class Draw:
  """A random transformation that records what it drew along with its stage."""

  def __init__(self, stage):
    self.stage = stage

  def __call__(self, x, rng):
    # An odd number of 32 bit draws leaves half of a 64 bit one behind.
    d = (int(rng.integers(2**32, dtype=np.uint32)), float(rng.standard_normal()),
         int(rng.integers(2**63)), rng.bytes(3), int(rng.integers(2**32, dtype=np.uint32)),
         int(rng.integers(5, dtype=np.uint8)),
         int(rng.integers(2**32, dtype=np.uint32)))
    return ("draw", self.stage, d, x)

  def __deepcopy__(self, memo):
    return self


def base(x):
  while isinstance(x, (tuple, list)):
    x = x[-1]
  return x


def draws(x, at, out):
  """Collects {(stage, where): draw} of an element."""
  if isinstance(x, list):
    for j, y in enumerate(x):
      draws(y, at + (j,), out)
  elif isinstance(x, tuple) and x and x[0] == "draw":
    k = (x[1], at)
    if k in out and out[k] != x[2]:
      raise Violation(f"stage {x[1]} drew {out[k]} and {x[2]} for element {at}")
    out[k] = x[2]
    draws(x[3], at, out)
  elif isinstance(x, tuple):
    draws(x[-1], at, out)


def ops():
  g = cat.g()
  e = g.experimental

  def cls(stage):
    class R(g.transforms.RandomMap):
      def random_map(self, x, rng):
        return Draw(stage)(x, rng)
    return R()

  t = {}
  t["rand"] = lambda d, k: d.random_map(Draw(k))
  t["randT"] = lambda d, k: d.random_map(cls(k))
  t["map"] = lambda d, k: d.map(cat.Fn(lambda x: ("map", x)))
  t["shuffle"] = lambda d, k: d.shuffle()
  t["wshuffle"] = lambda d, k: e.WindowShuffleMapDataset(d, window_size=2, seed=5)
  t["repeat"] = lambda d, k: d.repeat(2)
  t["slice"] = lambda d, k: d[1:]
  t["filter"] = lambda d, k: d.filter(cat.Fn(lambda x: base(x) % 3 != 1))
  t["index"] = lambda d, k: d.map_with_index(cat.Fn(lambda i, x: (i, x)))
  t["batch"] = lambda d, k: d.batch(2, batch_fn=list)
  return t


def iter_ops():
  g = cat.g()
  e = g.experimental
  t = {}
  t["Irand"] = lambda d, k: d.random_map(Draw(k))
  t["Imap"] = lambda d, k: d.map(cat.Fn(lambda x: ("map", x)))
  t["Ifilter"] = lambda d, k: d.filter(cat.Fn(lambda x: base(x) % 3 != 1))
  t["Ibatch"] = lambda d, k: d.batch(2, batch_fn=list)
  t["Iwshuffle"] = lambda d, k: e.WindowShuffleIterDataset(d, window_size=2, seed=3)
  t["Iindex"] = lambda d, k: d.map_with_index(cat.Fn(lambda i, x: (i, x)))
  t["Ilimit"] = lambda d, k: e.LimitIterDataset(d, 3)
  return t


RANDOM = ("rand", "randT", "Irand")


def well_formed(c):
  for i, o in enumerate(c):
    if o == "batch" and "filter" in c[:i]:
      return False
    if o in ("filter", "Ifilter") and ("batch" in c[:i] or "Ibatch" in c[:i]):
      return False
  return any(o in RANDOM for o in c)


def configs(tier):
  """(seed, n, chain of MapDataset transformations, chain of stream ones)."""
  q = tier == "quick"
  m, it = sorted(MAP), sorted(ITER)
  for depth in (1, 2, 3):
    for c in itertools.product(m, repeat=depth):
      if well_formed(c) and (depth < 3 or not q or "randT" not in c):
        for n in ((1, 2, 3, 4) if depth < 3 else (3,) if q else (2, 3, 5)):
          yield 3, n, c, ()
  for depth in (1, 2):
    for c in itertools.product(it, repeat=depth):
      for a in ((), ("rand",), ("shuffle",)) if depth > 1 else ((),) + tuple((x,) for x in m):
        if well_formed(a + c) and "batch" not in a:
          yield 3, 4, a, c
  if not q:
    for c in itertools.product(it, repeat=3):
      if well_formed(c):
        yield 3, 5, (), c
  for s in (0, 1, 2**31, 2**32 - 1):
    yield s, 4, ("rand", "rand"), ()
    yield s, 4, ("shuffle", "rand"), ("Irand",)


MAP = ("rand", "randT", "map", "shuffle", "wshuffle", "repeat", "slice", "filter", "index",
       "batch")
ITER = ("Irand", "Imap", "Ifilter", "Ibatch", "Iwshuffle", "Iindex", "Ilimit")


def cases(tier):
  return (report.chunked(configs(tier), 64 if tier == "quick" else 512, "pipelines")
          + [("seeds", "seeds"), ("workers", "workers")])


def build(seed, n, chain, ichain, data=None, threads=0, place="first"):
  g = cat.g()
  d = g.MapDataset.source(list(data or range(n))).seed(seed)
  t = ops()
  for k, c in enumerate(chain):
    d = t[c](d, k)
  if threads is None:
    return d
  d = d.to_iter_dataset(cat.ro(threads, 3 if threads else 1))
  t = iter_ops()
  for k, c in enumerate(ichain):
    d = t[c](d, 100 + k)
  return d


def explore(res, name, items):
  if items == "seeds":
    return guarded(res, name, seeds)
  if items == "workers":
    return guarded(res, name, workers)
  for p in items:
    guarded(res, f"seed {p[0]}, {p[1]} elements >{'>'.join(p[2] + p[3])}",
            lambda r: one(r, *p))
  res.samples.append(f"{name}: {items[-1]}")


def guarded(res, label, f):
  try:
    with hang_guard(100):
      f(res)
  except Violation as e:
    res.violation(label, f"{label}: {e}", {"case": label})
  except Hang as e:
    res.violation(label, f"{label}: does not terminate: {e}", {"case": label})
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    res.violation(label, f"{label}: raised {type(e).__name__}: {e}\n"
                  + traceback.format_exc()[-1500:], {"case": label})


def distinct(found, what):
  """found: [(who, draw)]; every two draws are from different generators."""
  for part in (0, 1, 2, 4):
    # 32 bit draws of few generators do not repeat either (fixed seeds).
    seen = {}
    for who, d in found:
      if d[part] in seen:
        raise Violation(f"{what}: {who} and {seen[d[part]]} drew the same: {d}")
      seen[d[part]] = who


def all_draws(elements):
  """The draws of a sequence of elements; stages before a reordering keep theirs."""
  out = {}
  for i, x in enumerate(elements):
    draws(x, (i,), out)
  return out


def one(res, seed, n, chain, ichain):
  if not ichain:
    random_access(res, seed, n, chain)
  stream(res, seed, n, chain, ichain)


def random_access(res, seed, n, chain):
  fresh = lambda **kw: build(seed, n, chain, (), threads=None, **kw)
  d = fresh()
  m = len(d)
  if m == 0:
    return
  top = 3 * m
  raw = [d[i] for i in range(top)]
  want = [vals.norm(x) for x in raw]

  def same(i, x, how):
    res.executions += 1
    if vals.norm(x) != want[i]:
      raise Violation(f"element {i} read {how} is {x}, in order it is {raw[i]}")

  for how, order in (("backwards", range(top)[::-1]), ("again", range(top))):
    f = fresh()
    for i in order:
      same(i, f[i], how)
  for i, j in itertools.product(range(min(top, 6)), repeat=2):
    f = fresh()
    same(i, f[i], "first")
    same(j, f[j], f"after element {i}")
    same(i, f[i], f"after {i} and {j}")
  for idx in (list(range(top)), list(range(top))[::-1], [top - 1, 0, top - 1, 0]):
    f = fresh()
    for i, x in zip(idx, f._getitems(idx)):
      same(i, x, f"with {idx} at once")
  res.distinct += 1
  # What is drawn depends on the place of the element and not on the data.
  if "filter" not in chain:
    other = fresh(data=[x + 1000 for x in range(n)])
    for i in range(top):
      a, b = {}, {}
      draws(raw[i], (i,), a)
      draws(other[i], (i,), b)
      if a != b:
        raise Violation(f"element {i}: other data of the same length draws {b} instead"
                        f" of {a}")
  # One generator per stage and element; elements a later stage repeats are the same.
  if not set(chain) & {"batch", "filter"}:
    last = max(k for k, c in enumerate(chain) if c in RANDOM)
    after = set(chain[last + 1:])
    if not after & {"batch"}:
      found = {}
      for i in range(top):
        x = {}
        draws(raw[i], (i,), x)
        for (stage, at), v in x.items():
          found.setdefault((stage, v), []).append(at)
      per_stage = {}
      for (stage, v), ats in found.items():
        per_stage.setdefault(stage, []).append(v)
      distinct([(f"stage {s} (element {found[(s, v)][0]})", v)
                for s, vs in per_stage.items() for v in vs], "one pipeline")
      for s in per_stage:
        if not after_only(chain, s) and len(per_stage[s]) != top:
          raise Violation(f"stage {s} drew {len(per_stage[s])} different values for {top}"
                          " elements")


def after_only(chain, stage):
  """Whether some transformation after the stage may show elements twice."""
  return bool(set(chain[stage + 1:]) & {"slice", "batch", "filter"})


def stream(res, seed, n, chain, ichain):
  make = lambda threads=0: build(seed, n, chain, ichain, threads=threads)
  it = iter(make())
  states, raw = [], []
  for _ in range(100):
    states.append(it.get_state())
    try:
      raw.append(next(it))
    except StopIteration:
      break
  want = [vals.norm(x) for x in raw]
  if not ichain:
    d = build(seed, n, chain, (), threads=None)
    direct = [vals.norm(d[i]) for i in range(len(d))]
    direct = [x for x in direct if x is not None]
    if want != direct:
      raise Violation(f"the stream gives {raw}, random access {direct}")
  for threads in (0, 2):
    t = iter(make(threads))
    got = hist.run_to_end(t, 100)
    t.close()
    res.executions += 1
    if got != want:
      raise Violation(f"with {threads} threads: {got} instead of {want}")
  for i, s in enumerate(states):
    for how in ("live", "json"):
      t = it if how == "live" else iter(make())
      t.set_state(s if how == "live" else json.loads(json.dumps(s)))
      got = hist.run_to_end(t, 100)
      res.executions += 1
      if got != want[i:]:
        raise Violation(f"restored at {i} ({how}): {got} instead of {want[i:]}")
  try:
    it._set_next_index(0)
  except Exception:  # pylint: disable=broad-except
    pass
  else:
    if "filter" not in chain:
      for i in range(len(want)):
        it._set_next_index(i)
        got = hist.run_to_end(it, 100)
        if got != want[i:]:
          raise Violation(f"moved to index {i}: {got} instead of {want[i:]}")
  res.states += len(states)
  found = []
  for i, x in enumerate(raw):
    out = {}
    draws(x, (i,), out)
    found += [((k[0], i) + k[1][1:], v) for k, v in out.items()]
  distinct([(f"stage {k[0]} element {k[1:]}", v) for k, v in found], "one stream")


def seeds(res):
  """Different seeds, and different places, give different generators."""
  for chain, ichain in ((("rand",), ()), (("shuffle", "rand"), ()), ((), ("Irand",)),
                        (("map", "rand"), ("Imap", "Irand"))):
    found = []
    for s in list(range(64)) + [2**16, 2**31, 2**32 - 1, 2**32 - 2]:
      for i, x in enumerate(build(s, 6, chain, ichain)):
        out = {}
        draws(x, (i,), out)
        found += [(f"seed {s} stage {k[0]} element {i}", v) for k, v in out.items()]
      res.executions += 1
    distinct(found, f"{chain}{ichain}")
  # The same random transformation at different places.
  g = cat.g()
  found = []
  for depth in range(8):
    for kind in ("map", "shuffle"):
      d = g.MapDataset.source(list(range(6))).seed(9)
      for _ in range(depth):
        d = d.map(cat.Fn(lambda x: x)) if kind == "map" else d.shuffle()
      if kind == "shuffle" and not depth:
        continue
      d = d.random_map(Draw(0))
      if kind == "map":
        for i in range(6):
          out = {}
          draws(d[i], (i,), out)
          found += [(f"depth {depth} element {i}", v) for v in out.values()]
      else:
        same = g.MapDataset.source(list(range(6))).seed(9)
        for _ in range(depth):
          same = same.map(cat.Fn(lambda x: x))
        same = same.random_map(Draw(0))
        a = [all_draws([d[i]]) for i in range(6)]
        b = [all_draws([same[i]]) for i in range(6)]
        if a != b:
          raise Violation(f"a random stage at depth {depth} draws differently after"
                          " shuffling than after mapping")
      res.executions += 1
  distinct(found, "depths")
  # Shuffles of different stages and seeds differ (64 elements).
  orders = {}
  for s in range(40):
    d = g.MapDataset.range(64).seed(s)
    one = d.shuffle()
    for who, p in (("first", one), ("epoch 2", None), ("mapped", d.map(cat.keep).shuffle())):
      o = tuple(one[i] for i in range(64, 128)) if p is None else tuple(p[i] for i in range(64))
      if o in orders:
        raise Violation(f"seed {s} {who} shuffles as {orders[o]}")
      orders[o] = f"seed {s} {who}"
      res.executions += 1
  # Explicit seeds win over the pipeline's, and mean the same anywhere.
  a = g.MapDataset.range(5).seed(1).random_map(Draw(0), seed=77)
  b = g.MapDataset.range(5).map(cat.keep).random_map(Draw(0), seed=77)
  if [all_draws([a[i]]) for i in range(5)] != [all_draws([b[i]]) for i in range(5)]:
    raise Violation("an explicit seed gives different draws at different places")


def workers(res):
  """Parts of a stream read by different workers have generators of their own."""
  g = cat.g()
  from grain._src.python.dataset.transformations import prefetch
  for w in (1, 2, 3):
    for n in range(0, 8):
      for chain in (("rand",), ("shuffle", "rand"), ()):
        make = lambda: prefetch.multithread_prefetch(
            build(4, n, chain, ("Irand",)), num_threads=w, buffer_size=2)
        runs = []
        for _ in range(2):
          it = iter(make())
          raw = []
          for x in it:
            raw.append(x)
          it.close()
          runs.append(raw)
          res.executions += 1
        if vals.norm(runs[0]) != vals.norm(runs[1]):
          raise Violation(f"{w} workers, {n} elements: two runs differ: {runs}")
        if sorted(base(x) for x in runs[0]) != list(range(n)):
          raise Violation(f"{w} workers, {n} elements: got {runs[0]}")
        out = all_draws(runs[0])
        distinct([(f"stage {k[0]} element {k[1]}", v) for k, v in out.items()],
                 f"{w} workers")
