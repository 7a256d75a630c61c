"""Sources with several preemptible lines each; import after boot."""
import weakref

from mc import sched
from grain._src.python.dataset import base
from grain._src.python.dataset import dataset as gd
import numpy as np


CREATED = []  # weak references to the iterators made in the main process


def open_iterators():
  """Those that still exist and are not closed."""
  return [i for i in (r() for r in CREATED) if i is not None and not i._closed]


class LineIterator(gd.DatasetIterator):
  """Counts up; raises at the positions given, and goes on after it."""

  def __init__(self, n, fail, log):
    super().__init__()
    e = sched._cur()
    if e is None or not e.cur.proc:
      CREATED.append(weakref.ref(self))
    self._n = n
    self._fail = fail
    self._log = log
    self._i = 0
    self._busy = 0

  def __next__(self):
    self._assert_not_closed()
    self._busy += 1
    if self._log is not None and self._busy != 1:
      self._log.append("two threads read the parent at the same time")
    try:
      i = self._i
      if i >= self._n:
        raise StopIteration
      if i in self._fail:
        self._i = i + 1
        raise ValueError(f"element {i}")
      v = 100 + i
      self._i = i + 1
    finally:
      self._busy -= 1
    return v

  def get_state(self):
    return {"i": self._i}

  def set_state(self, state):
    if self._log is not None and self._busy:
      self._log.append("the parent was restored while it was read")
    self._i = state["i"]

  def _get_next_index(self):
    return self._i

  def _set_next_index(self, i):
    if self._log is not None and self._busy:
      self._log.append("the parent was moved while it was read")
    self._i = i

  def close(self):
    if self._log is not None and self._busy:
      self._log.append("the parent was closed while it was read")
    super().close()

class BadIterator(LineIterator):
  """Fails in one of the given ways."""

  def __init__(self, n, how):
    super().__init__(n, (), None)
    self._how = how

  def __next__(self):
    if self._how == "exit" and self._i == 1:
      self._i = 2
      raise SystemExit(0)
    return super().__next__()

  def set_state(self, state):
    if self._how == "set_state":
      raise ValueError("cannot be restored")
    super().set_state(state)

  def _set_next_index(self, i):
    if self._how == "set_index":
      raise ValueError("cannot be moved")
    super()._set_next_index(i)

  def get_state(self):
    if self._how == "get_state" and self._i:
      raise ValueError("cannot be saved")
    return super().get_state()


class LineDataset(gd.IterDataset):

  def __init__(self, n, fail=(), log=None, how=None):
    super().__init__()
    self._n = n
    self._fail = tuple(fail)
    self._log = log
    self._how = how

  def set_slice(self, sl, sequential_slice=False):
    self._n = len(range(self._n)[sl])

  def __iter__(self):
    if self._how == "iter":
      raise ValueError("no iterator")
    if self._how:
      return BadIterator(self._n, self._how)
    return LineIterator(self._n, self._fail, self._log)

  @property
  def _element_spec(self):
    return base.ShapeDtypeStruct(shape=(), dtype=np.int64)

