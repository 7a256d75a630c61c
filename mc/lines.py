"""Small sources and functions with several preemptible lines each."""
import numpy as np

from mc import catalog as cat

def classes():
  """Dataset classes (made late: grain must be imported after boot)."""
  from mc import linecls
  return {"LineDataset": linecls.LineDataset, "LineIterator": linecls.LineIterator}


def files():
  from mc import linecls
  return [__file__, linecls.__file__]


@cat.Fn
def slow_map(x):
  y = x + 1
  y = y * 2
  return y


@cat.Fn
def rand(x, rng):
  a = int(rng.integers(1000))
  x = cat.tmap(lambda v: v * 10, x)
  b = int(rng.integers(1000))
  c = float(rng.standard_normal())
  d = int(rng.integers(7, dtype="uint32"))
  return cat.tmap(lambda v: v + a, x), b, c, d


@cat.Fn
def rand_row(x, rng):
  a = int(rng.integers(1000))
  b = int(rng.integers(1000))
  return cat.tmap(lambda v: v * 10 + a - b, x)


@cat.Fn
def row(x):
  y = {"a": np.full((2,), cat.num(x)), "b": np.asarray(cat.num(x) + 1)}
  return y


@cat.Fn
def bad_map(x):
  if x % 4 == 2:
    raise ValueError(f"element {x}")
  return x * 3


def call(f, *a, **k):
  """f(*a, **k), preemptible just before and after."""
  r = f(*a, **k)
  return r
