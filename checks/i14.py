"""I14: the declared element specification describes the elements produced."""
import functools
import itertools

import numpy as np

from mc import catalog as cat
from mc import report
from mc.report import Hang, Violation, hang_guard

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of all stacks of transformations up to a depth over"
             " sources that declare a specification, every element produced by the real code"
             " compared with the specification of the pipeline")
RULE = ("one evaluation = one pipeline (source x chain of transformations x length) whose"
        " specification is asked for before and after reading, all elements (two epochs"
        " where random access allows) compared with it; non-trivial: it declares one and"
        " produces elements")


def struct(shape, dtype):
  from grain._src.core import tree_lib  # pylint: disable=unused-import
  from grain._src.python.dataset import base
  return base.ShapeDtypeStruct(shape=shape, dtype=dtype)


@functools.cache
def classes():
  g = cat.g()

  def element(i):
    return {"a": np.full((2, 3), i, np.int32), "b": (np.float32(i), [np.int64(i)])}

  class MapSource(g.MapDataset):
    def __init__(self, n):
      super().__init__()
      self.n = n

    def __len__(self):
      return self.n

    def __getitem__(self, i):
      if isinstance(i, slice):
        return self.slice(i)
      return element(i % self.n)

    @property
    def _element_spec(self):
      return {"a": struct((2, 3), np.int32),
              "b": (struct((), np.float32), [struct((), np.int64)])}

  class Iterator(g.DatasetIterator):
    def __init__(self, n):
      super().__init__()
      self.i, self.n = 0, n

    def __next__(self):
      if self.i >= self.n:
        raise StopIteration
      self.i += 1
      return np.arange(4, dtype=np.uint8) + self.i

    def get_state(self):
      return {"i": self.i}

    def set_state(self, s):
      self.i = s["i"]

  class IterSource(g.IterDataset):
    def __init__(self, n):
      super().__init__()
      self.n = n

    def __iter__(self):
      return Iterator(self.n)

    @property
    def _element_spec(self):
      return struct((4,), np.uint8)

  def tmap(f, x):
    from grain._src.core import tree_lib
    return tree_lib.map_structure(f, x)

  class Wide(g.transforms.Map):
    """Adds an axis and changes the type of every leaf."""

    def map(self, x):
      return {"w": tmap(lambda v: np.asarray(v)[..., None].astype(np.float16), x)}

    def output_spec(self, s):
      return {"w": tmap(lambda v: struct(tuple(v.shape) + (1,), np.float16), s)}

  class Rand(g.transforms.RandomMap):
    def random_map(self, x, rng):
      return (x, rng.integers(5, size=2, dtype=np.int16))

    def output_spec(self, s):
      return (s, struct((2,), np.int16))

  class Index(g.experimental.MapWithIndexTransform):
    def map_with_index(self, i, x):
      return [np.int32(i), x]

    def output_spec(self, s):
      return [struct((), np.int32), s]

  class Plain(g.transforms.Map):
    """Declares nothing."""

    def map(self, x):
      return x

  class Count:
    """A batch function of its own."""

    def __call__(self, xs):
      return {"n": np.asarray(len(xs), np.int8)}

    def output_spec(self, input_spec, batch_size, drop_remainder):
      return {"n": struct((), np.int8)}

  return MapSource, IterSource, Wide, Rand, Index, Plain, Count


class Odd:
  """Keeps the first and every second further element it sees, in any structure."""

  def __call__(self, x):
    leaf = [v for v in cat.leaves(x)]
    return not leaf or int(leaf[0]) % 2 == 0

  def __deepcopy__(self, memo):
    return self


def map_ops():
  g = cat.g()
  e = g.experimental
  _, _, Wide, Rand, Index, Plain, Count = classes()
  t = {}
  t["wide"] = lambda d: d.map(Wide())
  t["plain"] = lambda d: d.map(Plain())
  t["rand"] = lambda d: d.random_map(Rand(), seed=1)
  t["filter"] = lambda d: d.filter(Odd())
  t["shuffle"] = lambda d: d.shuffle(seed=2)
  t["wshuffle"] = lambda d: e.WindowShuffleMapDataset(d, window_size=2, seed=1)
  t["slice"] = lambda d: d[1:]
  t["pick"] = lambda d: d.slice([0, 0, len(d) - 1] if len(d) else [])
  t["repeat"] = lambda d: d.repeat(2)
  t["seed"] = lambda d: d.seed(3)
  t["batch2"] = lambda d: d.batch(2)
  t["batch2drop"] = lambda d: d.batch(2, drop_remainder=True)
  t["batchcount"] = lambda d: d.batch(2, batch_fn=Count())
  t["zip"] = lambda d: e.ZipMapDataset([d, d])
  t["mix"] = lambda d: g.MapDataset.mix([d, d], [1, 2])
  t["concat"] = lambda d: g.MapDataset.concatenate([d, d])
  t["index"] = lambda d: d.map_with_index(Index())
  return t


def iter_ops():
  g = cat.g()
  e = g.experimental
  _, _, Wide, Rand, Index, Plain, Count = classes()
  from grain._src.python.dataset.transformations import batch, prefetch
  t = {}
  t["Iwide"] = lambda d: d.map(Wide())
  t["Iplain"] = lambda d: d.map(Plain())
  t["Irand"] = lambda d: d.random_map(Rand(), seed=1)
  t["Iindex"] = lambda d: d.map_with_index(Index())
  t["Ifilter"] = lambda d: d.filter(Odd())
  t["Iwshuffle"] = lambda d: e.WindowShuffleIterDataset(d, window_size=2, seed=1)
  t["Ilimit"] = lambda d: e.LimitIterDataset(d, 2)
  t["Irepeat"] = lambda d: e.RepeatIterDataset(d, 2)
  t["Iseed"] = lambda d: d.seed(3)
  t["Ioptions"] = lambda d: e.WithOptionsIterDataset(d, e.DatasetOptions())
  t["Icache"] = lambda d: e.CacheIterDataset(d)
  t["Ibatch2"] = lambda d: d.batch(2)
  t["Ibatch2drop"] = lambda d: d.batch(2, drop_remainder=True)
  t["Ibatchcount"] = lambda d: d.batch(2, batch_fn=Count())
  t["Ibatchpar"] = lambda d: d.batch(2, batch_fn=batch._MakeBatchParallel())
  t["Ibatchpad"] = lambda d: d.batch(
      2, batch_fn=functools.partial(e.batch_and_pad, batch_size=2))
  t["Ibatchpart"] = lambda d: d.batch(
      2, drop_remainder=True, batch_fn=functools.partial(batch.make_batch))
  t["Izip"] = lambda d: e.ZipIterDataset([d, d])
  t["Imix"] = lambda d: g.IterDataset.mix([d, d], [1, 2])
  t["Iinterleave"] = lambda d: e.InterleaveIterDataset([d, d], cycle_length=2)
  t["Iprefetch"] = lambda d: e.ThreadPrefetchIterDataset(d, prefetch_buffer_size=1)
  t["Imulti"] = lambda d: prefetch.multithread_prefetch(d, num_threads=2, buffer_size=1)
  for b in (1, 2, 3):
    t[f"Irebatch{b}"] = lambda d, b=b: e.RebatchIterDataset(d, b)
    t[f"Irebatch{b}drop"] = lambda d, b=b: e.RebatchIterDataset(d, b, drop_remainder=True)
  return t


REMAINDER = ("Irebatch1", "Irebatch2", "Irebatch3")
BATCH = ("batch2", "batch2drop", "Ibatch2", "Ibatch2drop", "Ibatchpar", "Ibatchpart", "Ibatchpad")


def well_formed(c):
  for i, o in enumerate(c):
    if o in REMAINDER and i + 1 < len(c):
      return False  # ragged, a known finding: only checked on its own
    if "zip" in o and any("filter" in p for p in c[:i]):
      return False  # zips positions without an element
    if o.startswith("batch") and "filter" in c[:i]:
      return False
    if o in BATCH and any(p in ("batch2", "Ibatch2", "Ibatchpar")
                          or p in REMAINDER for p in c[:i]):
      return False  # ragged
    if "rebatch" in o and not (i and (c[i - 1] in BATCH or "rebatch" in c[i - 1]
                                      or c[i - 1] in ("Iwide", "Ilimit", "Ioptions"))):
      return False
    if "rebatch" in o and not any(p in BATCH for p in c[:i]):
      return False
    if o == "Imulti" and ("Iprefetch" in c[:i] or "Iinterleave" in c[:i]):
      return False
  return sum(o in ("Iinterleave", "Iprefetch", "Imulti") for o in c) < 2


def configs(tier):
  q = tier == "quick"
  m = sorted(map_ops())
  it = sorted(iter_ops())
  lens = (1, 3, 4) if q else (1, 2, 3, 4, 5)

  def few(depth):
    return lens if depth < (2 if q else 3) else (3,) if q else (2, 3, 5)

  for s in ("range", "custom"):
    full = not q or s == "custom"
    for depth in range(4 if full else 3):
      for c in itertools.product(m, repeat=depth):
        if well_formed(c):
          for n in few(depth):
            yield s, n, c
    for depth in (0, 1, 2):
      for a in itertools.product(m, repeat=depth):
        for more in (1, 2, 3):
          if depth + more > (3 if full else 2):
            continue
          for c in itertools.product(it, repeat=more):
            if well_formed(a + c):
              for n in few(depth + more):
                yield s, n, a + c
  for depth in range(3 if q else 4):
    for c in itertools.product(it, repeat=depth):
      if well_formed(c) and "Imulti" not in c:  # cannot be sliced
        yield "iter", 3, c


def cases(tier):
  return report.chunked(configs(tier), 64 if tier == "quick" else 512, "pipelines")


@functools.cache
def tables():
  return map_ops(), iter_ops()


def build(s, n, chain):
  g = cat.g()
  MapSource, IterSource = classes()[:2]
  mo, io = tables()
  d = {"range": lambda: g.MapDataset.range(2, 2 + n), "custom": lambda: MapSource(n),
       "iter": lambda: IterSource(n)}[s]()
  for c in chain:
    if c.startswith("I"):
      if isinstance(d, g.MapDataset):
        d = d.to_iter_dataset(cat.ro())
      d = io[c](d)
    else:
      d = mo[c](d)
  return d


class Mismatch(Exception):
  pass


def match(spec, x, first=None, at=""):
  """`first` replaces the leading dimension of a specification by an upper bound."""
  if hasattr(spec, "shape") and hasattr(spec, "dtype"):
    a = np.asarray(x)
    if a.dtype == object or isinstance(x, (dict, list, tuple)):
      raise Mismatch(f"{at or 'element'}: {x!r} where an array was declared")
    if a.dtype != np.dtype(spec.dtype):
      raise Mismatch(f"{at or 'element'}: type {a.dtype}, declared {np.dtype(spec.dtype)}")
    shape = tuple(spec.shape)
    ok = len(shape) == len(a.shape) and all(
        d is None or d == k or (first and j == 0 and k < d)
        for j, (d, k) in enumerate(zip(shape, a.shape)))
    if not ok:
      raise Mismatch(f"{at or 'element'}: shape {a.shape}, declared {shape}")
    return
  if isinstance(spec, dict):
    if not isinstance(x, dict) or set(spec) != set(x):
      raise Mismatch(f"{at}: {type(x).__name__} with {list(x) if isinstance(x, dict) else x},"
                     f" declared keys {sorted(spec)}")
    for k in spec:
      match(spec[k], x[k], first, f"{at}[{k!r}]")
    return
  if isinstance(spec, (list, tuple)):
    if type(spec) is not type(x) or len(spec) != len(x):
      raise Mismatch(f"{at}: {type(x).__name__} {str(x)[:80]}, declared a"
                     f" {type(spec).__name__} of {len(spec)}")
    for j, (a, b) in enumerate(zip(spec, x)):
      match(a, b, first, f"{at}[{j}]")
    return
  raise Mismatch(f"{at}: unknown specification {spec!r}")


def explore(res, name, items):
  for p in items:
    label = f"{p[0]}({p[1]})" + "".join(">" + c for c in p[2])
    try:
      with hang_guard(60):
        one(res, label, *p)
    except Violation as e:
      res.violation(label, f"{label}: {e}", {"case": name})
    except Hang as e:
      res.violation(label, f"{label}: does not terminate: {e}", {"case": name})
    except Exception as e:  # pylint: disable=broad-except
      import traceback
      res.violation(label, f"{label}: raised {type(e).__name__}: {e}\n"
                    + traceback.format_exc()[-1500:], {"case": name})
  res.samples.append(f"{name}: {items[-1]}")


def one(res, label, s, n, chain):
  g = cat.g()
  res.executions += 1
  try:
    d = build(s, n, chain)
  except ValueError as e:
    if "length 0" in str(e) or "empty" in str(e):
      return
    raise
  try:
    spec = g.experimental.get_element_spec(d)
  except (NotImplementedError, ValueError):
    return  # it declares none
  if isinstance(d, g.MapDataset):
    xs = [d[i] for i in range(2 * len(d))]
    xs = [x for x in xs if x is not None]
    if xs and len(d) and "filter" not in chain:
      xs += d._getitems(list(range(len(d))))
  else:
    it = iter(d)
    xs = list(it)
    it.close()
  if repr(g.experimental.get_element_spec(d)) != repr(spec):
    raise Violation("the specification changed by reading")
  res.distinct += bool(xs)
  for i, x in enumerate(xs):
    try:
      match(spec, x)
    except Mismatch as e:
      try:
        if not chain or chain[-1] not in REMAINDER or i + 1 < len(xs):
          raise
        match(spec, x, first=True)
      except Mismatch:
        raise Violation(f"element {i}: {e}") from None
      res.violation("rebatch remainder", f"{label}: element {i}: {e}", {"case": label})
