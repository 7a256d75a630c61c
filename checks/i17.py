"""I17: building or iterating a dataset never affects another dataset or iterator."""
import itertools
import traceback

import numpy as np

from mc import catalog as cat
from mc import mapds
from mc import pipes
from mc import report
from mc import shm
from mc import simrun
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive exploration of all alternations of several iterators of a dataset (up to a"
             " number of switches) and of all programs of deriving and using steps up to a length,"
             " on the real code, against what each part does alone")
RULE = ("for every catalogue pipeline: all alternations of two iterators with a bounded number of"
        " switches, each compared with an iterator that is alone, the delivered elements compared"
        " again at the end; all programs over a set of bases of up to a number of steps, each"
        " deriving a dataset from any existing one (workers, threads, batches, repeats, slices,"
        " ...) or using one (iterating to any point, its spec, its description, states), then"
        " every dataset iterated twice and compared, in values and types, with a program that"
        " only derives it")
ASSUMPTIONS = ("worker processes are simulated and run under the default schedule",
               "user functions do not change their inputs")

pre_boot = simrun.install
HELD = []


def typed(x):
  """Comparable, with the exact types of arrays."""
  if isinstance(x, np.ndarray):
    return (type(x).__name__, vals.norm(x))
  if isinstance(x, dict):
    return ("map", tuple((k, typed(x[k])) for k in sorted(x)))
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, tuple(typed(v) for v in x))
  return (type(x).__name__, vals.norm(x))


def plain(x):
  return typed(x)


# --- A: alternations -------------------------------------------------------------


def solo(build):
  out = []
  it = iter(build())
  for x in it:
    out.append(typed(x))
    if len(out) > 60:
      break
  return out


def schedules(n, switches):
  """Who runs how many steps in turn: all with up to that many switches."""
  total = n + 1  # including the step that raises StopIteration
  for first in (0, 1):
    for k in range(switches + 1):
      # The last segment of each iterator is everything that is left.
      for cuts in itertools.product(range(1, total + 1), repeat=k):
        ok = True
        left = [total, total]
        who = first
        for c in cuts:
          if c >= left[who] + (c == left[who]):
            ok = False
            break
          left[who] -= c
          who = 1 - who
        if ok and min(left) >= 0:
          yield first, cuts


def alternate(res, build, want, first, cuts, mode):
  """mode: 'plain', 'late' (the second is created when it first runs), 'states'."""
  d = build()
  its = [None, None]
  for i in (0, 1):
    if mode != "late":
      its[i] = iter(d)
  out = [[], []]
  kept = []
  ended = [False, False]
  who = first

  def steps(i, k):
    if its[i] is None:
      its[i] = iter(d)
    for _ in range(k):
      if ended[i]:
        return
      if mode == "states":
        kept.append((its[i].get_state(),))
        kept[-1] += (plain(kept[-1][0]),)
      try:
        x = next(its[i])
      except StopIteration:
        ended[i] = True
        return
      out[i].append(typed(x))
      kept.append((x, out[i][-1]))
      res.transitions += 1
  for c in cuts:
    steps(who, c)
    who = 1 - who
  steps(who, 10**6 if len(want) <= 60 else 61)
  steps(1 - who, 10**6 if len(want) <= 60 else 61)
  what = f"steps {first}:{list(cuts)} ({mode})"
  for i in (0, 1):
    if out[i] != want:
      raise Violation(f"{what}: iterator {i} gives {out[i]} instead of {want}")
  for x, before in kept:
    if plain(x) != before:
      raise Violation(f"{what}: a delivered element or state changed later from {before} to"
                      f" {plain(x)}")


def alt_case(res, c):
  source, n, chain, switches = c
  build = lambda: pipes.build(source, n, chain)
  want = solo(build)
  for first, cuts in schedules(len(want), switches):
    for mode in ("late", "states") if len(chain) > 1 else ("plain", "late", "states"):
      alternate(res, build, want, first, cuts, mode)
      res.executions += 1
      res.states += 1


# --- B: programs ------------------------------------------------------------------


class ShmBatch:
  """A user's batch function that supports shared memory."""

  def __init__(self):
    self.shm = 0

  def enable_shared_memory_output(self):
    self.shm += 1

  def __call__(self, xs):
    return {"shm": self.shm, "x": np.stack(xs)}


class Parts:
  """The user's objects that a program shares between datasets."""

  def __init__(self):
    self.fn = ShmBatch()
    self.other = cat.g().MapDataset.source([90, 91, 92])
    self.options = cat.g().experimental.DatasetOptions(filter_warn_threshold_ratio=None)


def bases():
  g = cat.g()
  M = g.MapDataset
  E = g.experimental
  return {
      "src": lambda p: cat.src(5),
      "batched": lambda p: cat.src(5).batch(2),
      "fnbatched": lambda p: cat.src(5).batch(2, batch_fn=p.fn),
      "gen": lambda p: cat.gen_src(5),
      "zipself": lambda p: (lambda d: E.ZipIterDataset([d, d.map(cat.m_inc)]))(cat.src(4)),
      "mix": lambda p: g.IterDataset.mix([cat.src(3), cat.gen_src(4, 20)], [1, 2]),
      "inter": lambda p: cat.interleave(cat.src(3), [cat.src(2, 30), cat.src(2, 40)], 2),
      "packed": lambda p: E.FirstFitPackIterDataset(
          cat.src(6).map(cat.m_seq), length_struct={"a": 5}, num_packing_bins=2),
      "m": lambda p: M.source(list(range(5))),
      "mbatched": lambda p: M.source(list(range(5))).batch(2),
      "mfn": lambda p: M.source(list(range(5))).batch(2, batch_fn=p.fn),
      "mmix": lambda p: M.mix([M.source([1, 2, 3]), p.other], [1, 1]).map(cat.m_inc),
      "mrepeat": lambda p: M.source([1, 2, 3]).seed(4).shuffle().repeat(2),
  }


def mp(n, seq=False):
  return lambda d, p: d.mp_prefetch(
      cat.g().MultiprocessingOptions(num_workers=n, per_worker_buffer_size=1),
      sequential_slice=seq)


def threads(n, seq=False):
  def f(d, p):
    from grain._src.python.dataset.transformations import prefetch
    return prefetch.multithread_prefetch(d, n, 1, sequential_slice=seq)
  return f


def it_ops():
  e = cat.g().experimental
  return {
      "map": lambda d, p: d.map(show),
      "fnbatch": lambda d, p: d.batch(2, batch_fn=p.fn),
      "batch": lambda d, p: d.batch(2),
      "seed": lambda d, p: d.seed(9),
      "window": lambda d, p: e.WindowShuffleIterDataset(d, window_size=3, seed=2),
      "repeat": lambda d, p: e.RepeatIterDataset(d, 2),
      "options": lambda d, p: e.WithOptionsIterDataset(d, p.options),
      "mp2": mp(2),
      "mp3seq": mp(3, True),
      "mp1": mp(1),
      "threads2": threads(2),
      "thread": lambda d, p: e.ThreadPrefetchIterDataset(d, prefetch_buffer_size=2),
      "cache": lambda d, p: e.CacheIterDataset(d),
      "zip": lambda d, p: e.ZipIterDataset([d, cat.src(3, 60)], strict=False),
      "limit": lambda d, p: e.LimitIterDataset(d, 3),
  }


def map_ops():
  return {
      "map": lambda d, p: d.map(show),
      "fnbatch": lambda d, p: d.batch(2, batch_fn=p.fn),
      "batch": lambda d, p: d.batch(2),
      "seed": lambda d, p: d.seed(9),
      "shuffle": lambda d, p: d.shuffle(seed=3),
      "slice": lambda d, p: d[1::2],
      "repeat": lambda d, p: d.repeat(2),
      "mix": lambda d, p: cat.g().MapDataset.mix([d, p.other], [2, 1]),
      "iter": lambda d, p: d.to_iter_dataset(cat.ro()),
      "mp2": lambda d, p: mp(2)(d.to_iter_dataset(cat.ro()), p),
      "mp2seq": lambda d, p: mp(2, True)(d.to_iter_dataset(cat.ro()), p),
      "threads2": lambda d, p: threads(2)(d.to_iter_dataset(cat.ro()), p),
      "threads2seq": lambda d, p: threads(2, True)(d.to_iter_dataset(cat.ro()), p),
  }


@cat.Fn
def show(x):
  return ("m", x)


def is_map(d):
  return isinstance(d, cat.g().MapDataset)


def elements(d):
  """What iterating over it gives, including the error that ends it."""
  out = []
  it = iter(d)
  try:
    for x in it:
      out.append(typed(x))
      if len(out) > 40:
        break
  except (Violation, Hang):
    raise
  except Exception as e:  # pylint: disable=broad-except
    out.append(("raises", type(e).__name__))
  if hasattr(it, "close"):
    it.close()
  return out


def uses():
  from grain._src.python.dataset import dataset as ds

  def some(k, close):
    def f(d, p):
      it = iter(d)
      for _ in range(k):
        try:
          next(it)
        except StopIteration:
          pass
        except Exception:  # pylint: disable=broad-except
          pass
      if close and hasattr(it, "close"):
        it.close()
      else:
        HELD.append(it)
    return f

  def resume(d, p):
    it = iter(d)
    try:
      next(it)
      s = it.get_state()
      next(it)
      it.set_state(s)
      next(it)
    except Exception:  # pylint: disable=broad-except
      pass
    if hasattr(it, "close"):
      it.close()

  def spec(d, p):
    try:
      ds.get_element_spec(d)
    except Exception:  # pylint: disable=broad-except
      pass

  def text(d, p):
    str(d), repr(d)
    if is_map(d):
      len(d)
      if len(d):
        d[0], d[len(d)]
  return {"two": some(2, False), "all": lambda d, p: elements(d), "closed": some(1, True),
          "resume": resume, "spec": spec, "text": text}


def derive(d, op, p):
  return (map_ops() if is_map(d) else it_ops())[op](d, p)


def recipe_alone(base, path):
  p = Parts()
  try:
    d = bases()[base](p)
    for op in path:
      d = derive(d, op, p)
  except Exception as e:  # pylint: disable=broad-except
    return ("refused", type(e).__name__)
  return elements(d)


SOLO = {}


def alone(base, path):
  k = (base, path)
  if k not in SOLO:
    SOLO[k] = recipe_alone(base, path)
  return SOLO[k]


def prog_case(res, c):
  base, steps = c
  p = Parts()
  ds = [((), bases()[base](p))]
  HELD.clear()
  for target, op in steps:
    if target >= len(ds):
      return
    path, d = ds[target]
    if op in uses():
      uses()[op](d, p)
    else:
      table = map_ops() if is_map(d) else it_ops()
      if op not in table:
        return
      if op.startswith("mp") and any(o.startswith("mp") for o in path):
        return  # workers have no workers
      try:
        ds.append((path + (op,), table[op](d, p)))
      except Exception as e:  # pylint: disable=broad-except
        if alone(base, path + (op,)) != ("refused", type(e).__name__):
          raise
        return
  for k in (1, 2):
    for path, d in ds:
      got = elements(d)
      res.transitions += len(got)
      want = alone(base, path)
      if got != want:
        raise Violation(f"iterating {base}{''.join('.' + o for o in path)} gives {got}"
                        f" instead of {want} (iteration {k})")
  HELD.clear()
  res.executions += 1
  res.states += 1


def programs(base, depth, deriving, using):
  """All programs; the last step is never useless (uses come before the end)."""
  ops = [*deriving, *using]
  for d in range(1, depth + 1):
    for steps in itertools.product(ops, repeat=d):
      n = 1
      ranges = []
      for op in steps:
        ranges.append(range(n))
        n += op in deriving
      for ts in itertools.product(*ranges):
        yield tuple(zip(ts, steps))


# --- C: data loaders ----------------------------------------------------------------


def loader_case(res, c):
  """Two loaders and a dataset that share the user's objects."""
  order, workers = c
  from grain import python as py
  g = cat.g()

  def make(kind, p):
    if kind == "dataset":
      return cat.src(5).batch(2, batch_fn=p.fn)
    w = workers if kind == "loader" else 0
    return py.DataLoader(
        data_source=p.source, sampler=p.sampler, operations=p.ops, worker_count=w,
        worker_buffer_size=1, read_options=cat.ro())

  def parts():
    p = Parts()
    p.source = py.RangeDataSource(10, 16, 1)
    p.sampler = py.IndexSampler(6, shard_options=py.NoSharding(), shuffle=True, num_epochs=1,
                                seed=3)
    p.ops = [py.Batch(2, batch_fn=p.fn)]
    return p
  p = parts()
  made = {}
  for k, what in order:
    if what == "make":
      made[k] = make(k, p)
    elif k in made:
      if what == "some":
        it = iter(made[k])
        next(it)
        getattr(it, "close", lambda: None)()
      else:
        elements(made[k])
  for k, d in made.items():
    got = elements(d)
    want = elements(make(k, parts()))
    res.transitions += len(got)
    if got != want:
      raise Violation(f"{k} gives {got} instead of {want}")
  res.executions += 1
  res.states += 1


def configs(tier):
  q = tier == "quick"
  out = []
  names = [x for x in pipes.names() if x != "repeatinf_limit7"]
  for s in pipes.sources():
    for x in [None, *pipes.names()]:
      ch = (x,) if x else ()
      if not pipes.well_formed(ch) or (q and s in ("mnones", "mmix") and x):
        continue
      out.append(("alternate", (s, 4, ch, 3 if s == "src" and not q else 2
                                if s in ("src", "gen") or not q else 1)))
  for ch in itertools.product(names, repeat=2):
    if not pipes.well_formed(ch):
      continue
    out.append(("alternate", ("src" if q else "gen", 3 if q else 4, ch, 1 if q else 2)))
  ito, mo = list(it_ops()), list(map_ops())
  us = list(uses())
  for b in bases():
    o = mo if b.startswith("m") and b != "mix" else ito
    few = {"batch", "fnbatch", "cache", "repeat", "slice", "mix", "mp2", "mp2seq", "mp3seq",
           "threads2seq", "iter", "window", "two", "spec", "resume"}
    for st in programs(b, 2, o, us):
      if q and len(st) == 2 and (
          b in ("batched", "gen", "mix", "m", "mrepeat", "packed")
          or not {st[0][1], st[1][1]} <= few
          or sum(x[1] in us for x in st) == 2
          or sum(x[1].startswith(("mp", "threads")) for x in st) == 2 and st[0] == st[1]):
        continue
      out.append(("program", (b, st)))
  if not q:
    some = {"src": (["map", "batch", "mp2", "cache", "fnbatch", "repeat"], ["all", "two"]),
            "fnbatched": (["map", "mp2", "mp3seq", "repeat", "threads2"], ["all", "resume"]),
            "batched": (["map", "mp2", "mp1", "mp3seq", "thread"], ["all", "spec"]),
            "inter": (["mp2", "threads2", "map", "repeat"], ["two", "all"]),
            "zipself": (["mp2", "mp3seq", "map", "cache"], ["two", "spec"]),
            "m": (["slice", "mp2seq", "batch", "shuffle", "mix", "iter"], ["two", "text"]),
            "mmix": (["slice", "mp2", "mp2seq", "repeat", "seed"], ["all", "text"])}
    for b, (o, u) in some.items():
      for st in programs(b, 3, o, u):
        if len(st) == 3:
          out.append(("program", (b, st)))
  acts = [(k, a) for k in ("loader", "inline", "dataset") for a in ("make", "some", "all")]
  for order in itertools.product(acts, repeat=3 if q else 4):
    made = set()
    ok = True
    for k, a in order:
      ok = ok and ((a == "make") != (k in made))
      made.add(k)
    if ok and len(made) > 1:
      for w in (1, 2):
        out.append(("loaders", (order, w)))
  return out


def label(c):
  kind, x = c
  if kind == "alternate":
    return f"{x[0]}({x[1]}) {'+'.join(x[2])}"
  if kind == "program":
    return f"{x[0]}: " + "; ".join(f"{op} of {t}" for t, op in x[1])
  return f"loaders with {x[1]} workers: " + "; ".join(f"{a} {k}" for k, a in x[0])


def cases(tier):
  cs = configs(tier)
  out = []
  for kind, n in (("alternate", 48), ("program", 32), ("loaders", 4)):
    sel = [c for c in cs if c[0] == kind]
    out += report.chunked(sel, n if tier == "quick" else 4 * n, kind)
  return out


def explore(res, name, cs):
  shm.install()
  for c in cs:
    shm.reset()
    f = {"alternate": alt_case, "program": prog_case, "loaders": loader_case}[c[0]]
    try:
      with hang_guard(120):
        if c[0] == "alternate":
          f(res, c[1])
        else:
          simrun.call(lambda: f(res, c[1]))
        res.distinct += 1
    except Violation as e:
      res.violation(label(c), f"{label(c)}: {e}", {"case": name, "config": label(c)})
    except Hang as e:
      res.violation(label(c), f"{label(c)}: does not terminate: {e}", {"case": name})
    except Exception as e:  # pylint: disable=broad-except
      tb = "".join(traceback.format_exc().splitlines(True)[-12:])
      res.violation(label(c), f"{label(c)}: raises {type(e).__name__}: {e}\n{tb}",
                    {"case": name, "config": label(c)})
  res.samples.append(label(cs[0]) if cs else "")
