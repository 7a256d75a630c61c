"""Comparable form of dataset elements."""
import collections.abc
import dataclasses

import numpy as np


def norm(x):
  if isinstance(x, np.ndarray):
    if x.dtype.hasobject:
      return ("oarr", x.shape, tuple(norm(v) for v in x.ravel().tolist()))
    return ("arr", str(x.dtype), x.shape, tuple(x.ravel().tolist()))
  if isinstance(x, np.generic):
    return ("arr", str(x.dtype), (), (x.item(),))
  if isinstance(x, collections.abc.Mapping):
    return ("map", tuple((k, norm(x[k])) for k in sorted(x)))
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, tuple(norm(v) for v in x))
  if dataclasses.is_dataclass(x) and not isinstance(x, type):
    return (type(x).__name__,
            tuple((f.name, norm(getattr(x, f.name)))
                  for f in dataclasses.fields(x)))
  if hasattr(x, "__array__") and not isinstance(x, (int, float, str, bytes)):
    return norm(np.asarray(x))
  return x
