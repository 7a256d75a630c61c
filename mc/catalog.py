"""Pipelines explored by the checks: builders plus plain-Python references.

An entry of ITER is name -> (apply(ds) -> ds, model(list) -> list or None).
The generic element is an int, or an array/tuple/list of them; `num` folds any
element into an int, so that every transformation composes with every other.
"""
import functools

import numpy as np


def leaves(x):
  if x is None:
    return []
  if isinstance(x, (tuple, list)):
    out = []
    for v in x:
      out += leaves(v)
    return out
  if isinstance(x, dict):
    out = []
    for k in sorted(x):
      out += leaves(x[k])
    return out
  return [int(v) for v in np.asarray(x).ravel()]


def num(x):
  return sum(leaves(x))


def tmap(f, x):
  if isinstance(x, tuple):
    return tuple(tmap(f, v) for v in x)
  if isinstance(x, list):
    return [tmap(f, v) for v in x]
  if isinstance(x, dict):
    return {k: tmap(f, v) for k, v in x.items()}
  if x is None:
    return None
  return f(x)


class Fn:
  """A named callable; cheaper for the library to describe than a function."""

  def __init__(self, f):
    self.f = f

  def __call__(self, *a, **k):
    return self.f(*a, **k)

  def __repr__(self):
    return self.f.__name__

  def __deepcopy__(self, memo):
    return self


@Fn
def m_inc(x):
  return tmap(lambda v: v + 1, x)


@Fn
def m_rand(x, rng):
  r = int(rng.integers(1000))
  return tmap(lambda v: v * 1000 + r, x)


@Fn
def m_idx(i, x):
  return tmap(lambda v: v + 100 * i, x)


@Fn
def f_mod3(x):
  return num(x) % 3 != 1


@Fn
def f_none(x):
  return False


@Fn
def f_odd(x):
  return num(x) % 2 == 1


def g():
  import grain
  return grain


def stack(xs):
  x = xs[0]
  if isinstance(x, tuple):
    return tuple(stack([v[i] for v in xs]) for i in range(len(x)))
  if isinstance(x, list):
    return [stack([v[i] for v in xs]) for i in range(len(x))]
  if isinstance(x, dict):
    return {k: stack([v[k] for v in xs]) for k in x}
  return np.stack([np.asarray(v) for v in xs])


def b_model(n, drop):
  def f(xs):
    out = []
    for i in range(0, len(xs), n):
      c = xs[i:i + n]
      if len(c) == n or not drop:
        out.append(stack(c))
    return out
  return f


@Fn
def tolist_fn(xs):
  return list(xs)


@functools.cache
def flat_cls():
  grain = g()

  class Fan(grain.experimental.FlatMapTransform):
    max_fan_out = 3

    def flat_map(self, x):
      # 0, 1 or 2 outputs.
      k = num(x) % 3
      return [tmap(lambda v: v + 10 * j, x) for j in range(k)]

  return Fan


def flat_model(xs):
  out = []
  for x in xs:
    for j in range(num(x) % 3):
      out.append(tmap(lambda v: v + 10 * j, x))
  return out


def ro(n=0, buf=1):
  grain = g()
  return grain.ReadOptions(num_threads=n, prefetch_buffer_size=buf)


def src(n, off=0):
  """An IterDataset over range(n)."""
  grain = g()
  return grain.MapDataset.source(list(range(off, off + n))).to_iter_dataset(ro())


def gen_src(n, off=0):
  """A user-defined IterDataset that is not backed by a MapDataset."""
  return user_source_cls()(list(range(off, off + n)))


@functools.cache
def user_source_cls():
  grain = g()

  class _UserIter(grain.DatasetIterator):

    def __init__(self, data):
      super().__init__()
      self._data = data
      self._i = 0

    def __next__(self):
      if self._i >= len(self._data):
        raise StopIteration
      self._i += 1
      return self._data[self._i - 1]

    def get_state(self):
      return {"i": self._i}

    def set_state(self, state):
      self._i = state["i"]

  class UserSource(grain.IterDataset):

    def __init__(self, data):
      super().__init__()
      self._data = data

    def set_slice(self, sl, sequential_slice=False):
      self._data = self._data[sl]

    def __iter__(self):
      return _UserIter(self._data)

  return UserSource


def interleave(ds, others, cycle, **kw):
  grain = g()
  return grain.experimental.InterleaveIterDataset(
      [ds, *others], cycle_length=cycle, iter_buffer_size=0, **kw)


def interleave_model(lists, cycle):
  """Round robin over at most `cycle` open lists, opening the next as one ends."""
  out = []
  cyc = min(cycle, len(lists))
  slots = [None] * cyc
  nxt = 0
  i = 0
  while True:
    if slots[i] is not None:
      if slots[i]:
        out.append(slots[i].pop(0))
        i = (i + 1) % cyc
      else:
        slots[i] = None
        i = (i + 1) % cyc
      continue
    if nxt < len(lists):
      slots[i] = list(lists[nxt])
      nxt += 1
    elif all(s is None for s in slots):
      return out
    else:
      i = (i + 1) % cyc


# --- one-to-one, many-to-one, one-to-many transformations -------------------


def transforms():
  """name -> (apply, model); model is None where the order is pseudo-random."""
  grain = g()
  e = grain.experimental
  Fan = flat_cls()
  t = {}
  t["map"] = (lambda d: d.map(m_inc), lambda x: [m_inc(v) for v in x])
  t["map_with_index"] = (
      lambda d: d.map_with_index(m_idx),
      lambda x: [m_idx(i, v) for i, v in enumerate(x)])
  t["random_map"] = (lambda d: d.random_map(m_rand, seed=7), None)
  t["filter"] = (lambda d: d.filter(f_mod3), lambda x: [v for v in x if f_mod3(v)])
  t["filter_all"] = (lambda d: d.filter(f_none), lambda x: [])
  t["batch2"] = (lambda d: d.batch(2), b_model(2, False))
  t["batch2drop"] = (lambda d: d.batch(2, drop_remainder=True), b_model(2, True))
  t["batch3fn"] = (lambda d: d.batch(3, batch_fn=tolist_fn),
                   lambda x: [x[i:i + 3] for i in range(0, len(x), 3)])
  t["flatmap"] = (lambda d: e.FlatMapIterDataset(d, Fan()), flat_model)
  t["limit3"] = (lambda d: e.LimitIterDataset(d, 3), lambda x: x[:3])
  t["limit99"] = (lambda d: e.LimitIterDataset(d, 99), lambda x: x)
  t["repeat2"] = (lambda d: e.RepeatIterDataset(d, 2), lambda x: x + x)
  t["repeat3"] = (lambda d: e.RepeatIterDataset(d, 3), lambda x: x + x + x)
  t["cache"] = (lambda d: e.CacheIterDataset(d), lambda x: x)
  t["wshuffle"] = (
      lambda d: e.WindowShuffleIterDataset(d, window_size=2, seed=3), None)
  t["wshuffle3"] = (
      lambda d: e.WindowShuffleIterDataset(d, window_size=3, seed=5), None)
  t["zip"] = (lambda d: e.ZipIterDataset([d, src(4, 50)], strict=False),
              lambda x: list(zip(x, range(50, 54))))
  t["mix"] = (lambda d: grain.IterDataset.mix([d, src(4, 70).map(keep)], [2, 1]), None)
  t["mixdict"] = (
      lambda d: grain.IterDataset.mix({"b": d, "a": src(3, 70)},
                                      {"a": 1, "b": 1}), None)
  t["options"] = (
      lambda d: e.WithOptionsIterDataset(
          d, e.DatasetOptions(filter_warn_threshold_ratio=None)), lambda x: x)
  t["seed"] = (lambda d: d.seed(3), lambda x: x)
  return t


@Fn
def keep(x):
  return x


def ileaves():
  """Transformations whose iterators own background machinery."""
  t = {}
  for cyc in (1, 2, 3):
    t[f"interleave{cyc}"] = (
        lambda d, cyc=cyc: interleave(d, [src(1, 30), gen_src(2, 40)], cyc),
        lambda x, cyc=cyc: interleave_model([x, [30], [40, 41]], cyc))
  return t


def rows(b):
  """The elements a batch was made of."""
  if isinstance(b, (tuple, list)):
    return list(zip(*[rows(v) for v in b]))
  return list(b)


def rebatchable():
  """Applied to batched pipelines only."""
  e = g().experimental
  t = {}
  for n in (1, 2, 3, 4):
    for drop in (False, True):
      def model(bs, n=n, drop=drop):
        flat = [r for b in bs for r in rows(b)]
        return b_model(n, drop)(flat)
      t[f"rebatch{n}{'drop' if drop else ''}"] = (
          lambda d, n=n, drop=drop: e.RebatchIterDataset(
              d, n, drop_remainder=drop), model)
  return t


@Fn
def m_seq(x):
  k = num(x) % 4 + 1
  return {"a": np.arange(k, dtype=np.int32) + 10 * num(x)}


@Fn
def m_seq2(x):
  k = num(x) % 4 + 1
  j = (num(x) * 7) % 3 + 1
  return {"a": np.arange(k, dtype=np.int32) + 10 * num(x),
          "b": np.arange(j, dtype=np.int32) + 1000 * num(x)}


def packers():
  e = g().experimental
  t = {}
  for cls, nm in ((e.FirstFitPackIterDataset, "ffd"),
                  (e.BestFitPackIterDataset, "bfd")):
    for shuf in (False, True):
      t[f"{nm}{'_shuf' if shuf else ''}"] = (
          lambda d, cls=cls, shuf=shuf: cls(
              d.map(m_seq), length_struct={"a": 5}, num_packing_bins=2,
              seed=3, shuffle_bins=shuf), None)
    t[f"{nm}_2f"] = (
        lambda d, cls=cls: cls(
            d.map(m_seq2), length_struct={"a": 5, "b": 4}, num_packing_bins=3,
            seed=3, shuffle_bins=True), None)
  for full in (False, True):
    t[f"cts{'_full' if full else ''}"] = (
        lambda d, full=full: e.ConcatThenSplitIterDataset(
            d.map(m_seq), length_struct={"a": 3},
            split_full_length_features=full), None)
    t[f"cts2{'_full' if full else ''}"] = (
        lambda d, full=full: e.ConcatThenSplitIterDataset(
            d.map(m_seq2), length_struct={"a": 3, "b": 2},
            split_full_length_features=full), None)
  return t
