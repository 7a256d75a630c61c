"""Deterministic stand-in for background executors (one schedule: at once).

Switched in the methods of `ThreadPoolExecutor` itself, so that it does not matter how
the code under test imports the class.  Executors made while it is on run every task
when it is submitted; subclasses, and executors made while it is off, are left alone.
"""
from concurrent import futures as _f

_T = _f.ThreadPoolExecutor
_INIT, _SUBMIT, _SHUTDOWN = _T.__init__, _T.submit, _T.shutdown
_on = False


def _inline(self):
  return self.__dict__.get("_mc_inline", False)


def _init(self, *a, **k):
  if _on and type(self) is _T:
    self._mc_inline = True
  else:
    _INIT(self, *a, **k)


def _submit(self, fn, /, *a, **k):
  if not _inline(self):
    return _SUBMIT(self, fn, *a, **k)
  f = _f.Future()
  f.set_running_or_notify_cancel()
  try:
    f.set_result(fn(*a, **k))
  except BaseException as e:  # pylint: disable=broad-except
    f.set_exception(e)
  return f


def _shutdown(self, *a, **k):
  if not _inline(self):
    _SHUTDOWN(self, *a, **k)


def patch():
  """Makes MapDataset iterators read ahead in the calling thread."""
  global _on
  _T.__init__, _T.submit, _T.shutdown = _init, _submit, _shutdown
  _on = True


def unpatch():
  global _on
  _on = False
