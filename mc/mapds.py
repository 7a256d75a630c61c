"""Random-access pipelines and their model: a length and a function of the index."""
import functools
import math

import numpy as np

from mc import catalog as cat


class M:
  """Model of a MapDataset: n elements per epoch, f(i) for every i >= 0."""

  def __init__(self, n, f, sparse=False, ragged=False):
    self.n, self.f, self.sparse, self.ragged = n, f, sparse, ragged


@functools.cache
def classes():
  g = cat.g()

  class Native:
    """A source with a batched read of its own."""

    def __init__(self, data):
      self.data = data

    def __len__(self):
      return len(self.data)

    def __getitem__(self, i):
      if not 0 <= i < len(self.data):
        raise IndexError(i)
      return self.data[i]

    def _getitems(self, indices):
      assert all(0 <= i < len(self.data) for i in indices), indices
      return [self.data[i] for i in indices]

  class Custom(g.MapDataset):
    def __init__(self, n):
      super().__init__()
      self.n = n

    def __len__(self):
      return self.n

    def __getitem__(self, i):
      if isinstance(i, slice):
        return self.slice(i)
      return 100 + i % self.n

  return Native, Custom


def sources():
  g = cat.g()
  Native, Custom = classes()
  return {
      "list": lambda n: (g.MapDataset.source(list(range(n))), M(n, lambda i: i % n)),
      "native": lambda n: (g.MapDataset.source(Native(list(range(n)))), M(n, lambda i: i % n)),
      "range": lambda n: (g.MapDataset.range(3, 3 + 2 * n, 2), M(n, lambda i: 3 + 2 * (i % n))),
      "custom": lambda n: (Custom(n), M(n, lambda i: 100 + i % n)),
      "nested": lambda n: (g.MapDataset.source(g.MapDataset.source(list(range(n)))),
                           M(n, lambda i: i % n)),
  }


def _map(fn):
  return lambda m: M(m.n, lambda i: None if m.f(i) is None else fn(i, m.f(i)), m.sparse, m.ragged)


def _slice(sl):
  def f(m):
    r = range(*sl.indices(m.n))
    def g(i):
      e, k = divmod(i, len(r))
      return m.f(r[k] + e * m.n)
    return M(len(r), g, m.sparse, m.ragged)
  return f


def _reindex(make):
  def f(m):
    idx = make(m.n)
    def g(i):
      e, k = divmod(i, len(idx))
      return m.f(idx[k] + e * m.n)
    return M(len(idx), g, m.sparse, m.ragged)
  return f


def _concat(ms):
  n = sum(m.n for m in ms)
  def g(i):
    e, k = divmod(i, n)
    for m in ms:
      if k < m.n:
        return m.f(k + e * m.n)
      k -= m.n
  return M(n, g, any(m.sparse for m in ms), True)


def _batch(b, drop, fn=cat.stack):
  def f(m):
    n = m.n // b if drop else math.ceil(m.n / b)
    def g(i):
      e, k = divmod(i, n)
      return fn([m.f(e * m.n + j) for j in range(k * b, min(k * b + b, m.n))])
    return M(n, g, m.sparse, True)
  return f


def _filter(p):
  return lambda m: M(m.n, lambda i: m.f(i) if m.f(i) is not None and p(m.f(i)) else None,
                     True, m.ragged)


def _flat(m):
  def g(i):
    k, j = divmod(i, 3)
    x = m.f(k)
    if x is None:
      return None
    xs = cat.flat_model([x])
    return xs[j] if j < len(xs) else None
  return M(3 * m.n, g, True, m.ragged)


def _ref_mix(weights, k):
  """The selection by largest accumulated share is not unique; see I10."""
  raise NotImplementedError


def perm(n):
  return [(7 * i + 3) % n for i in range(n)] if n else []


def ops(tier="quick"):
  g = cat.g()
  e = g.experimental
  MD = g.MapDataset
  Fan = cat.flat_cls()

  class DoubleT(g.transforms.Map):
    def map(self, x):
      return cat.tmap(lambda v: 2 * v, x)

  class IdxT(e.MapWithIndexTransform):
    def map_with_index(self, i, x):
      return cat.tmap(lambda v: v - 3 * i, x)

  class OddT(g.transforms.Filter):
    def filter(self, x):
      return cat.f_odd(x)

  t = {}
  t["map"] = (lambda d: d.map(cat.m_inc), _map(lambda i, x: cat.m_inc(x)))
  t["mapT"] = (lambda d: d.map(DoubleT()), _map(lambda i, x: cat.tmap(lambda v: 2 * v, x)))
  t["index"] = (lambda d: d.map_with_index(cat.m_idx), _map(cat.m_idx))
  t["indexT"] = (lambda d: d.map_with_index(IdxT()),
                 _map(lambda i, x: cat.tmap(lambda v: v - 3 * i, x)))
  t["filter"] = (lambda d: d.filter(cat.f_mod3), _filter(cat.f_mod3))
  t["filterT"] = (lambda d: d.filter(OddT()), _filter(cat.f_odd))
  t["flatmap"] = (lambda d: e.FlatMapMapDataset(d, Fan()), _flat)
  for nm, sl in {"[1:]": slice(1, None), "[:-1]": slice(None, -1), "[::2]": slice(None, None, 2),
                 "[::-1]": slice(None, None, -1), "[1:4:2]": slice(1, 4, 2),
                 "[-2:]": slice(-2, None), "[3:0:-2]": slice(3, 0, -2)}.items():
    t[nm] = (lambda d, sl=sl: d[sl], _slice(sl))
  t["slice(1,9)"] = (lambda d: d.slice(slice(1, 9)), _slice(slice(1, 9)))
  t["pick"] = (lambda d: d.slice(perm(len(d))), _reindex(perm))
  t["picktwice"] = (lambda d: d.slice([0, len(d) - 1, 0] if len(d) else []),
                    _reindex(lambda n: [0, n - 1, 0] if n else []))
  t["pickds"] = (lambda d: d.slice(MD.range(len(d))[::-1]),
                 _reindex(lambda n: list(range(n))[::-1]))
  for k in (1, 2, 3):
    t[f"repeat{k}"] = (lambda d, k=k: d.repeat(k),
                       lambda m, k=k: M(k * m.n, m.f, m.sparse, m.ragged))
  t["repeat2same"] = (lambda d: d.repeat(2, reseed_each_epoch=False),
                      lambda m: M(2 * m.n, lambda i: m.f(i % m.n), m.sparse, m.ragged))
  t["seed"] = (lambda d: d.seed(4), lambda m: m)
  t["batch2"] = (lambda d: d.batch(2), _batch(2, False))
  t["batch2drop"] = (lambda d: d.batch(2, drop_remainder=True), _batch(2, True))
  t["batch3list"] = (lambda d: d.batch(3, batch_fn=cat.tolist_fn), _batch(3, False, list))
  s3 = lambda: MD.source([50, 51, 52])
  s1 = lambda: MD.source([90])
  m3, m1 = M(3, lambda i: 50 + i % 3), M(1, lambda i: 90)
  t["concat"] = (lambda d: MD.concatenate([d, s3()]), lambda m: _concat([m, m3]))
  t["concat3"] = (lambda d: MD.concatenate([s1(), d, s3()]), lambda m: _concat([m1, m, m3]))
  t["concat_self"] = (lambda d: MD.concatenate([d, d]), lambda m: _concat([m, m]))
  t["zip_self"] = (lambda d: e.ZipMapDataset([d, d]),
                   lambda m: M(m.n, lambda i: (m.f(i), m.f(i)), m.sparse, m.ragged))
  t["zip_idx"] = (
      lambda d: e.ZipMapDataset([d, d.map_with_index(cat.Fn(lambda i, x: i))]),
      lambda m: M(m.n, lambda i: (m.f(i), None if m.f(i) is None else i), m.sparse, m.ragged))

  class Sel(g.MapDataset if False else object):
    """Alternates between the last element of one and the elements of another."""

    def __init__(self, n):
      self.n = n

    def __len__(self):
      return 2 * self.n

    def __getitem__(self, i):
      return (0, i // 2) if i % 2 == 0 else (1, i // 2 + 1)

  t["select"] = (
      lambda d: MD.select_from_datasets([d, s3()], Sel(len(d))),
      lambda m: M(2 * m.n, lambda i: m.f(i // 2) if i % 2 == 0 else m3.f(i // 2 + 1),
                  m.sparse, True))
  return t


def well_formed(chain):
  for i, c in enumerate(chain):
    if c.startswith("batch"):
      if any(p.startswith(("filter", "flatmap", "mix3")) for p in chain[:i]):
        return False  # refused by the library
      if c != "batch3list" and any(
          p.startswith(("batch", "concat", "select", "zip", "mix")) for p in chain[:i]):
        return False  # ragged
  return True
