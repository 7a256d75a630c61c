"""Canonical form of a graph of live Python objects.

Two object graphs with the same canonical form behave the same: the form spells
out every value reachable from the roots, with aliasing (which mutable objects
are shared) preserved.  Things that cannot influence results (locks, loggers,
statistics, functions, datasets, classes, modules) are reduced to their name.
Something that cannot be read reliably (a generator, a running thread) yields
None: the caller then must not merge such states.
"""
import collections
import functools
import logging
import re
import threading
import types
import weakref

import numpy as np

_ATOM = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis))
_LOCKS = (type(threading.Lock()), type(threading.RLock()), threading.Condition,
          threading.Event, threading.Semaphore)


_ADDR = re.compile(" at 0x[0-9a-f]+")


class Opaque(Exception):
  pass


def canon(*roots, skip_types=(), opaque_ok=False):
  seen = {}
  out = []
  keep = []

  def w(x):
    out.append(x)

  def visit(o):
    t = type(o)
    if isinstance(o, _ATOM):
      if t is str and " at 0x" in o:
        o = _ADDR.sub(" at 0x", o)
      w((t.__name__, o))
      return
    if isinstance(o, np.generic):
      w(("npg", str(o.dtype), o.tobytes() if not o.dtype.hasobject else repr(o)))
      return
    if isinstance(o, skip_types):
      w(("skip", t.__name__))
      return
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type,
                      types.ModuleType, property, np.dtype, np.ufunc)):
      w(("fn", getattr(o, "__qualname__", getattr(o, "__name__", str(o)))))
      return
    if isinstance(o, types.MethodType):
      w(("meth", o.__func__.__qualname__))
      visit(o.__self__)
      return
    if isinstance(o, (_LOCKS, logging.Logger)):
      w(("lock", t.__name__))
      return
    if isinstance(o, (types.GeneratorType, types.CoroutineType, threading.Thread,
                      type(iter([])), types.FrameType)):
      if opaque_ok:
        w(("opaque", t.__name__))
        return
      raise Opaque(t.__name__)
    i = id(o)
    if i in seen:
      w(("ref", seen[i]))
      return
    seen[i] = len(seen)
    keep.append(o)
    if isinstance(o, np.ndarray):
      w(("arr", str(o.dtype), o.shape,
         o.tobytes() if not o.dtype.hasobject else repr(o.tolist())))
      return
    if isinstance(o, (list, tuple, collections.deque)):
      w((t.__name__, len(o)))
      for x in o:
        visit(x)
      return
    if isinstance(o, (set, frozenset)):
      w((t.__name__, sorted(map(repr, o))))
      return
    if isinstance(o, (dict, types.MappingProxyType)):
      w((t.__name__, len(o)))
      for k in sorted(o, key=repr):
        visit(k)
        visit(o[k])
      return
    if isinstance(o, functools.partial):
      w(("partial",))
      visit(o.func)
      visit(o.args)
      visit(o.keywords)
      return
    if isinstance(o, weakref.ref):
      w(("weak",))
      return
    if isinstance(o, np.random.Generator):
      visit(o.bit_generator.state)
      return
    d = getattr(o, "__dict__", None)
    slots = []
    for c in t.__mro__:
      s = c.__dict__.get("__slots__", ())
      slots += [s] if isinstance(s, str) else list(s)
    if d is None and not slots:
      r = repr(o)
      if " at 0x" in r:
        if opaque_ok:
          w(("opaque", t.__name__))
          return
        raise Opaque(t.__name__)
      w(("repr", t.__name__, r))
      return
    w(("obj", t.__module__, t.__qualname__))
    for k in sorted(d or ()):
      if "stats" in k or "timer" in k or "threshold" in k:
        continue
      w(k)
      visit(d[k])
    for k in slots:
      if k.startswith("__"):
        continue
      if hasattr(o, k):
        w(k)
        visit(getattr(o, k))

  for r in roots:
    visit(r)
  return hash(repr(out)), len(out), keep
