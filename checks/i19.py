"""I19: options and monitoring never change what a pipeline does."""
import collections
import dataclasses
import functools
import itertools
import traceback
import types

import numpy as np

from mc import catalog as cat
from mc import mapds
from mc import pipes
from mc import report
from mc import shm
from mc import simrun
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive exploration on the real code: every pipeline, element kind and failure is run"
             " under every monitoring and option mode, with the monitoring's own actions performed"
             " between all steps, and compared step by step with the run without it")
RULE = ("for all catalogue pipelines (and pairs of transformations), all random-access pipelines, all"
        " element kinds (values, containers and opaque objects) and all places where user code"
        " fails, under every mode (stage timing at the end or at the source, debug mode, visual"
        " graph, traceback filtering, warning thresholds): the same elements in value, type and"
        " order, the same states, the same errors, the same end; from every state the pipeline"
        " in any mode continues alike; the same with simulated workers; the summary can be taken"
        " and printed after every step and is a tree over the stages; all merges of options"
        " against the documented precedence")
ASSUMPTIONS = ("the reporting loops do not run by themselves: what they do is done between steps",
               "worker processes are simulated and run under the default schedule")

pre_boot = simrun.install


# --- modes ------------------------------------------------------------------------


def opts(**kw):
  return cat.g().experimental.DatasetOptions(**kw)


def timing():
  return cat.g().experimental.ExecutionTrackingMode.STAGE_TIMING


def tracked(**kw):
  return opts(execution_tracking_mode=timing(), **kw)


# name -> (config flags, options at the source or None, options at the end or None)
def modes():
  return {
      "plain": ({}, None, None),
      "timing": ({}, None, tracked),
      "timing first": ({}, tracked, None),
      "debug": ({"py_debug_mode": True}, None, None),
      "graph": ({"py_dataset_visualization_output_dir": ""}, None, None),
      "both": ({"py_debug_mode": True, "py_dataset_visualization_output_dir": ""}, None, tracked),
      "tb off": ({"py_traceback_filtering": "off"}, None, None),
      "tb hide": ({"py_traceback_filtering": "tracebackhide"}, None, None),
      "tb quiet": ({"py_traceback_filtering": "quiet_remove_frames"}, None, None),
      "tb remove": ({"py_traceback_filtering": "remove_frames"}, None, None),
      "warn": ({}, None, lambda: opts(filter_warn_threshold_ratio=0.0)),
      "big raise": ({}, lambda: opts(filter_raise_threshold_ratio=None), lambda: opts(min_shm_size=5)),
  }


DEFAULTS = {"py_debug_mode": False, "py_dataset_visualization_output_dir": None,
            "py_traceback_filtering": "auto"}


class _NoThread:

  def __init__(self, *a, **k):
    pass

  def start(self):
    pass


def setup():
  """The reporting loops are driven by hand."""
  import threading
  from absl import flags
  from absl import logging
  from grain._src.python.dataset import stats
  if not flags.FLAGS.is_parsed():
    flags.FLAGS.mark_as_parsed()
  logging.set_verbosity(logging.FATAL)
  if not isinstance(stats.threading, types.SimpleNamespace):
    stats.threading = types.SimpleNamespace(Thread=_NoThread, Lock=threading.Lock)


class in_mode:

  def __init__(self, name):
    self.flags = modes()[name][0]

  def __enter__(self):
    from grain._src.core.config import config
    for k, v in {**DEFAULTS, **self.flags}.items():
      config.update(k, v)

  def __exit__(self, *a):
    from grain._src.core.config import config
    for k, v in DEFAULTS.items():
      config.update(k, v)


# --- what is observed ---------------------------------------------------------------


def sig(x):
  """Value, type and order of an element."""
  if x is None or isinstance(x, (bool, int, float, str, bytes, type)):
    return (type(x).__name__, repr(x))
  if isinstance(x, np.ndarray):
    if x.dtype.hasobject:
      return ("oarr", x.shape, tuple(sig(v) for v in x.ravel().tolist()))
    return (type(x).__name__, str(x.dtype), x.shape, x.tobytes(), x.flags.writeable)
  if isinstance(x, np.generic):
    return (type(x).__name__, repr(x))
  if isinstance(x, collections.abc.Mapping):
    return (type(x).__name__, tuple((sig(k), sig(v)) for k, v in x.items()))
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, tuple(sig(v) for v in x))
  if type(x).__name__ == "Node":
    return ("Node", id(x))
  if isinstance(x, Point) and x.y is x:
    return ("Point", "itself", sig(x.x))
  if dataclasses.is_dataclass(x):
    return (type(x).__name__, tuple((f.name, sig(getattr(x, f.name)))
                                    for f in dataclasses.fields(x)))
  return (type(x).__name__, getattr(x, "tag", None))


def check_summary(it, where):
  """Does what the monitoring loops do."""
  from grain._src.python.dataset import dataset
  from grain._src.python.dataset import stats
  from grain._src.python.dataset import stats_utils
  s = it._stats
  s.report()
  if not isinstance(s, stats._ExecutionStats):
    return
  summary = dataset.get_execution_summary(it)
  stats.pretty_format_summary(summary)
  nodes = dict(summary.nodes.items())
  bad = [k for k, n in nodes.items() if n.id != k]
  if bad:
    raise Violation(f"{where}: summary nodes {bad} have another id")
  seen = []
  todo = [0]
  while todo:
    k = todo.pop()
    if k in seen or k not in nodes:
      raise Violation(f"{where}: the summary is no tree over the stages: node {k} is"
                      f" {'visited twice' if k in seen else 'missing'} in"
                      f" {[(k, n.name[:40], list(n.inputs)) for k, n in sorted(nodes.items())]}")
    seen.append(k)
    todo += nodes[k].inputs
  if sorted(seen) != sorted(nodes):
    raise Violation(f"{where}: summary nodes {sorted(set(nodes) - set(seen))} belong to nothing")
  outputs = [k for k, n in nodes.items() if n.is_output]
  if outputs != [0]:
    raise Violation(f"{where}: the summary's output nodes are {outputs}")
  msg = stats_utils.sort_nodes_by_wait_time_ratio(summary)
  stats_utils.analyze_summary(msg)
  stats.pretty_format_summary(msg)


def observe(make, mode, steps, state=None, states=True, monitor=True):
  """The trace of a run; make(first, last) gives the iterator's dataset."""
  _, first, last = modes()[mode]
  with in_mode(mode):
    out = []
    got_states = []
    try:
      d = make(first, last)
      it = iter(d)
      if state is not None:
        it.set_state(state)
    except (Violation, Hang):
      raise
    except Exception as e:  # pylint: disable=broad-except
      return [("refused", type(e).__name__, str(e))], [], None
    watch = monitor and mode not in ("plain", "tb off", "warn")
    for k in range(steps):
      if watch:
        check_summary(it, f"{mode}, before step {k}")
      if states:
        s = it.get_state()
        got_states.append(s)
        out.append(("state", sig(s)))
      try:
        out.append(("element", sig(next(it))))
      except StopIteration:
        out.append(("end",))
        if len([o for o in out if o == ("end",)]) == 2:
          break
      except (Violation, Hang):
        raise
      except Exception as e:  # pylint: disable=broad-except
        out.append(("error", type(e).__name__, str(e)))
    if watch:
      check_summary(it, f"{mode}, after the last step")
    return out, got_states, it


def first_difference(a, b):
  for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
    if x != y:
      return f"step {i}: {str(y)[:250]} instead of {str(x)[:250]}"
  return None


def close(it):
  if it is not None and hasattr(it, "close"):
    it.close()


def compare(res, make, steps=9, restore=True, only=None, states=True):
  want, wstates, it = observe(make, "plain", steps, states=states)
  close(it)
  for mode in only or modes():
    if mode == "plain":
      continue
    got, gstates, it = observe(make, mode, steps, states=states)
    close(it)
    res.executions += 1
    res.transitions += len(got)
    d = first_difference(want, got)
    if d:
      raise Violation(f"in mode '{mode}' {d}")
    if not restore:
      continue
    for k in range(len(wstates)):
      # From this mode to the plain one and back; what follows is the same.
      a = observe(make, "plain", steps, state=wstates[k], monitor=False)
      close(a[2])
      b = observe(make, mode, steps, state=wstates[k])
      close(b[2])
      c = observe(make, "plain", steps, state=gstates[k], monitor=False)
      close(c[2])
      for what, t in (("restored in the mode", b), ("saved in the mode", c)):
        d = first_difference(a[0], t[0])
        if d:
          raise Violation(f"state {k} {what} '{mode}': {d}")
      res.executions += 3
      res.transitions += len(b[0])
  res.states += 1


def with_options(d, f):
  return d if f is None else cat.g().experimental.WithOptionsIterDataset(d, f())


# --- A: pipelines --------------------------------------------------------------------


def pipe_case(res, c):
  source, n, chain, kind, names = c

  def make(first, last):
    d = with_options(pipes.sources()[source](n), first)
    for t in chain:
      d = pipes.all_transforms()[t][0](d)
    d = worker(d, kind)
    return with_options(d, last)
  if kind:
    simrun.call(lambda: compare(res, make, n + 4, restore=True, only=names))
  else:
    compare(res, make, 9, restore=len(chain) < 2, only=names)


def worker(d, kind):
  from grain._src.python.dataset.transformations import prefetch
  if not kind:
    return d
  if kind == "thread":
    return cat.g().experimental.ThreadPrefetchIterDataset(d, prefetch_buffer_size=1)
  if kind == "threads2":
    return prefetch.multithread_prefetch(d, 2, 1)
  w = {"mp1": 1, "mp2": 2, "mp2+": 2, "zipmp": 2, "mpzip": 1, "zipmp2": 2}[kind]
  mp = lambda d: d.mp_prefetch(cat.g().MultiprocessingOptions(
      num_workers=w, per_worker_buffer_size=1))
  z = lambda ds: cat.g().experimental.ZipIterDataset(ds, strict=False)
  if kind == "mp2+":
    return mp(d).map(cat.m_inc).batch(2)
  if kind == "zipmp":
    return z([mp(d), cat.src(3, 70)])
  if kind == "zipmp2":
    return z([cat.src(3, 70), mp(d), mp(cat.src(4, 80)).map(cat.m_inc)])
  if kind == "mpzip":
    return mp(z([d, cat.interleave(cat.src(2, 70), [cat.gen_src(2, 40)], 2), cat.src(5)]))
  return mp(d)


# --- B: random access --------------------------------------------------------------------


def map_case(res, c):
  source, n, chain = c

  def make():
    d, m = mapds.sources()[source](n)
    for t in chain:
      f, _ = mapds.ops()[t]
      d = f(d)
    return d

  def trace(mode):
    out = []
    with in_mode(mode):
      try:
        d = make()
      except Exception as e:  # pylint: disable=broad-except
        return [("refused", type(e).__name__, str(e))]
      ln = len(d)
      out.append(ln)
      for i in [*range(min(ln, 8)), ln, ln + 1, -1]:
        try:
          out.append(sig(d[i]))
        except Exception as e:  # pylint: disable=broad-except
          out.append(("error", type(e).__name__, str(e)))
        if hasattr(d, "_stats"):
          d._stats.report()
      try:
        out.append(sig(list(d._getitems(list(range(min(ln, 3)))))))
      except Exception as e:  # pylint: disable=broad-except
        out.append(("error", type(e).__name__, str(e)))
      if ln:
        out += observe(lambda f, l: d.to_iter_dataset(cat.ro()), mode, 5)[0]
    return out
  want = trace("plain")
  for mode in modes():
    if modes()[mode][1] or modes()[mode][2]:
      continue
    got = trace(mode)
    res.executions += 1
    res.transitions += len(got)
    d = first_difference(want, got)
    if d:
      raise Violation(f"in mode '{mode}' {d}")
  res.states += 1


# --- C: element kinds ------------------------------------------------------------------------


@dataclasses.dataclass
class Point:
  x: object
  y: object


class Node:
  """Refers to itself."""

  def __init__(self):
    self.me = [self]


class Opaque:
  tag = "opaque"

  def __array__(self, *a, **k):
    raise RuntimeError("cannot be converted to numpy")


class Moody:
  tag = "moody"

  def __len__(self):
    raise RuntimeError("no length")

  def __getitem__(self, i):
    raise RuntimeError("no items")

  def __eq__(self, o):
    raise RuntimeError("not comparable")

  def __bool__(self):
    raise RuntimeError("no truth value")

  __hash__ = None


class Dict(dict):
  pass


class Str(str):
  pass


Pair = collections.namedtuple("Pair", "a b")


def kinds():
  loop = Point(1, None)
  loop.y = loop
  a = lambda *v: np.array(v, np.int32)
  out = {
      "none": None, "int": 3, "float": 1.5, "bool": True, "complex": "1j", "str": "ab",
      "empty str": "", "bytes": b"abc", "substr": Str("q"), "np int": np.int64(4),
      "np str": np.str_("x"), "0d": np.array(5), "1d": a(1, 2, 3), "empty array": a(),
      "2d": np.zeros((2, 0, 3)), "object array": np.array([None, "a", [1]], object),
      "str array": np.array(["a", "bcd"]), "record": np.zeros(2, [("a", int), ("b", "f4")]),
      "date": np.array(["2020-01-01"], "M8[D]"),
      "list": [1, 2], "empty list": [], "empty tuple": (), "empty dict": {},
      "ragged": [[1], [2, 3]], "mixed": [1, "a", None], "arrays": [a(1), a(2, 3)],
      "tuple": (a(1), "x"), "nones": (None, None), "nested": {"b": {"z": 1, "a": [a(1), None]}, "a": ()},
      "order": {"b": 1, "a": 2}, "int keys": {2: "x", 1: "y"}, "mixed keys": {1: "x", "a": "y"},
      "tuple keys": {(1, 2): 3}, "none key": {None: 1, "a": 2},
      "ordered": collections.OrderedDict([("b", 1), ("a", 2)]),
      "default": collections.defaultdict(list, {"b": [1], "a": []}),
      "dict class": Dict(b=1, a=2), "proxy": types.MappingProxyType({"b": 1, "a": 2}),
      "namedtuple": Pair(a(1), [2]), "dataclass": Point(1, a(2)), "self dataclass": None,
      "class": Point, "type": int, "object": Opaque(), "moody": Moody(),
      "moody list": [Moody(), Moody()], "opaque in dict": {"a": Opaque(), "b": 1}, "set": frozenset({1}),
      "node": Node(), "slice": slice(1, 2), "range": range(3), "function": len,
      "long": "x" * 3000, "deep": [[[[[[[[1]]]]]]]], "many": list(range(500)),
  }
  out["self dataclass"] = loop
  return out


def kind_places():
  g = cat.g()
  e = g.experimental
  M = g.MapDataset
  t = {
      "source": lambda x: M.source([1, x, 2]).to_iter_dataset(cat.ro()),
      "threads": lambda x: M.source([1, x, 2]).to_iter_dataset(cat.ro(2, 2)),
      "map": lambda x: cat.src(3).map(Give(x)),
      "first": lambda x: cat.gen_src(3).map(Give(x, 0)),
      "mmap": lambda x: M.source([0, 1, 2]).map(Give(x)).repeat(2).to_iter_dataset(cat.ro()),
      "thread": lambda x: e.ThreadPrefetchIterDataset(cat.src(3).map(Give(x)), prefetch_buffer_size=1),
      "inter": lambda x: cat.interleave(cat.src(2).map(Give(x)), [cat.gen_src(2)], 2),
      "flat": lambda x: e.FlatMapIterDataset(cat.src(2).map(Give(x)), Twice()),
      "batchfn": lambda x: cat.src(3).map(Give(x)).batch(2, batch_fn=cat.tolist_fn),
      "window": lambda x: e.WindowShuffleIterDataset(cat.src(3).map(Give(x)), window_size=2, seed=1),
      "cache": lambda x: e.RepeatIterDataset(e.CacheIterDataset(cat.src(3).map(Give(x))), 2),
      "zip": lambda x: e.ZipIterDataset([cat.src(3), cat.src(3).map(Give(x))]),
      "filter": lambda x: cat.src(3).map(Give(x)).filter(Keep()),
      "batch": lambda x: cat.src(2).map(Give(x, 0)).batch(1),
      "mbatch": lambda x: M.source([x, x]).batch(2).to_iter_dataset(cat.ro()),
  }
  return t


class Give:
  """Gives the element at one place."""

  def __init__(self, x, at=1):
    self.x, self.at = x, at

  def __call__(self, i):
    return self.x if cat.num(i) == self.at else i

  def __deepcopy__(self, memo):
    return self

  def __repr__(self):
    return "Give"


class Keep:

  def __call__(self, x):
    return True

  def __repr__(self):
    return "Keep"


def Twice():
  g = cat.g()

  class T(g.experimental.FlatMapTransform):
    max_fan_out = 2

    def flat_map(self, x):
      return [x, x]
  return T()


def kind_case(res, c):
  kind, place, names = c
  make0 = kind_places()[place]

  def make(first, last):
    return with_options(with_options(make0(kinds_once()[kind]), first), last)
  run = lambda: compare(res, make, 6, restore=False, only=names,
                        states=place not in ("window", "cache"))
  if place in ("threads", "thread"):
    simrun.call(run)
  else:
    run()


_KINDS = {}


def kinds_once():
  if not _KINDS:
    _KINDS.update(kinds())
  return _KINDS


# --- D: failures ---------------------------------------------------------------------------------


class Odd(Exception):

  def __init__(self, a, b):
    super().__init__(f"{a}-{b}")
    self.a, self.b = a, b

  def __reduce__(self):
    return Odd, (self.a, self.b)


ERRORS = {"value": lambda: ValueError("bad value"), "key": lambda: KeyError("k"),
          "odd": lambda: Odd(1, "x"), "index": lambda: IndexError(3), "assert": lambda: AssertionError(),
          "type": lambda: TypeError("t"), "os": lambda: OSError(2, "no"),
          "unicode": lambda: UnicodeDecodeError("utf8", b"x", 0, 1, "r")}


class Fail:

  def __init__(self, err, at):
    self.err, self.at = err, at

  def __call__(self, x):
    if cat.num(x) == self.at:
      raise ERRORS[self.err]()
    return x

  def __deepcopy__(self, memo):
    return self

  def __repr__(self):
    return f"Fail({self.err})"


def fail_case(res, c):
  err, at, where, kind, names = c

  def make(first, last):
    f = Fail(err, at)
    M = cat.g().MapDataset
    d = {"map": lambda: cat.src(4).map(f),
         "mmap": lambda: M.source([0, 1, 2, 3]).map(f).to_iter_dataset(cat.ro()),
         "filter": lambda: cat.src(4).filter(f),
         "batch": lambda: cat.src(4).batch(2, batch_fn=f),
         "inter": lambda: cat.interleave(cat.src(2).map(f), [cat.gen_src(3).map(f)], 2)}[where]()
    d = with_options(d, first)
    return with_options(worker(d, kind), last)
  if kind:
    simrun.call(lambda: compare(res, make, 6, restore=False, only=names, states=False))
  else:
    compare(res, make, 8, restore=False, only=names)


# --- E: options ------------------------------------------------------------------------------------


FIELDS = {
    "filter_warn_threshold_ratio": (0.9, [None, 0.9, 0.5]),
    "filter_raise_threshold_ratio": (None, [None, 0.7]),
    "execution_tracking_mode": (None, ["default", "timing"]),
    "min_shm_size": (0, [0, 7]),
}


def option_sets(small):
  """All ways of setting each field or leaving it unset."""
  names = list(FIELDS)
  vals = []
  for f in names:
    v = FIELDS[f][1]
    vals.append(["unset"] + (v[:2] if small else v))
  for combo in itertools.product(*vals):
    yield {f: v for f, v in zip(names, combo) if v != "unset"}


def real_options(d):
  d = dict(d)
  if "execution_tracking_mode" in d:
    m = cat.g().experimental.ExecutionTrackingMode
    d["execution_tracking_mode"] = (m.DISABLED if d["execution_tracking_mode"] == "default"
                                    else m.STAGE_TIMING)
  return opts(**d)


def read_options(o):
  m = cat.g().experimental.ExecutionTrackingMode
  return (o.filter_warn_threshold_ratio, o.filter_raise_threshold_ratio,
          "timing" if o.execution_tracking_mode is m.STAGE_TIMING else "default", o.min_shm_size)


def expected_options(*sets):
  """The first set that has the field wins."""
  out = []
  for f, (default, _) in FIELDS.items():
    v = "default" if f == "execution_tracking_mode" else default
    for s in sets[::-1]:
      v = s.get(f, v)
    out.append(v)
  return tuple(out)


def seen_options(d):
  """The options that the source's iterator gets."""
  it = iter(d)
  while getattr(it, "_parents", None):
    it = it._parents[0]
  return it._ctx.dataset_options, it


def options_case(res, c):
  kind, part, parts = c
  sets = list(option_sets(small=kind != "merge"))
  e = cat.g().experimental
  if kind == "merge":
    for i, a in enumerate(sets):
      if i % parts != part:
        continue
      for b in sets:
        x, y = real_options(a), real_options(b)
        m = x.merge(y)
        want = expected_options(a, b)
        if read_options(m) != want:
          raise Violation(f"{a} merged with {b} gives {read_options(m)} instead of {want}")
        if read_options(x) != expected_options(a) or read_options(y) != expected_options(b):
          raise Violation(f"merging {a} with {b} changed one of them")
        if read_options(x.merge(None)) != expected_options(a):
          raise Violation(f"{a} merged with None gives {read_options(x.merge(None))}")
        # What was not set stays open to a further set.
        for f in FIELDS:
          z = {f: FIELDS[f][1][-1]}
          if read_options(m.merge(real_options(z))) != expected_options(a, b, z):
            raise Violation(f"{a} merged with {b} and then {z} gives"
                            f" {read_options(m.merge(real_options(z)))}")
        res.transitions += 6
      res.states += 1
    return
  sel = [s for s in sets if len(s) <= 2]
  for i, a in enumerate(sel):
    if i % parts != part:
      continue
    for b in sel:
      for between in (False, True):
        d = cat.gen_src(3)
        d = e.WithOptionsIterDataset(d, real_options(b))
        if between:
          d = d.map(cat.m_inc)
        d = e.WithOptionsIterDataset(d, real_options(a))
        if between:
          d = d.batch(2)
        got, it = seen_options(d)
        # The documented rule: closer to the output wins.
        want = expected_options(a, b)
        if read_options(got) != want:
          raise Violation(f"options {b} and then {a} on top: the pipeline uses"
                          f" {read_options(got)} instead of {want}")
        x = iter(d)
        n = len(list(x))
        if n != (2 if between else 3):
          raise Violation(f"options {b} and then {a} change the number of elements to {n}")
        res.transitions += 1
    res.states += 1


@functools.cache
def probe_cls():
  """A source whose elements are the options its iterator sees."""
  g = cat.g()

  class _It(g.DatasetIterator):

    def __init__(self, data):
      super().__init__()
      self._data, self._i = data, 0

    def __next__(self):
      if self._i >= len(self._data):
        raise StopIteration
      self._i += 1
      return read_options(self._ctx.dataset_options)

    def get_state(self):
      return {"i": self._i}

    def set_state(self, state):
      self._i = state["i"]

  class Probe(g.IterDataset):

    def __init__(self, n=3):
      super().__init__()
      self._data = list(range(n))

    def set_slice(self, sl, sequential_slice=False):
      self._data = self._data[sl]

    def __iter__(self):
      return _It(self._data)
  return Probe


A = {"min_shm_size": 3, "filter_raise_threshold_ratio": 0.7}
B = {"min_shm_size": 8, "filter_warn_threshold_ratio": None}
C = {"execution_tracking_mode": "timing"}


def probe_ops():
  g = cat.g()
  e = g.experimental
  P = probe_cls()
  o = lambda s: lambda d: e.WithOptionsIterDataset(d, real_options(s))
  t = {
      "A": o(A), "B": o(B), "C": o(C),
      "map": lambda d: d.map(cat.keep),
      "filter": lambda d: d.filter(Keep()),
      "thread": lambda d: e.ThreadPrefetchIterDataset(d, prefetch_buffer_size=1),
      "thread0": lambda d: e.ThreadPrefetchIterDataset(d, prefetch_buffer_size=0),
      "repeat": lambda d: e.RepeatIterDataset(d, 2),
      "limit": lambda d: e.LimitIterDataset(d, 3),
      "cache": lambda d: e.CacheIterDataset(d),
      "flat": lambda d: e.FlatMapIterDataset(d, Twice()),
      "inter1": lambda d: cat.interleave(d, [], 1),
      "inter2": lambda d: cat.interleave(d, [P(2)], 2),
      "inter2b": lambda d: e.InterleaveIterDataset([P(1), d], cycle_length=1, iter_buffer_size=1),
      "zip": lambda d: e.ZipIterDataset([d, P(9)], strict=False).map(First()),
      "mix": lambda d: g.IterDataset.mix([d, P(2)], [1, 1]),
      "seed": lambda d: d.seed(1),
      "threads2": lambda d: worker(d, "threads2"),
      "mp1": lambda d: worker(d, "mp1"),
      "mp2": lambda d: worker(d, "mp2"),
  }
  return t


def First():
  return cat.Fn(first_of)


def first_of(x):
  return x[0]


# Separate the options of the datasets below from what is above.
NESTING = ("inter1", "inter2", "inter2b")


def probe_case(res, c):
  chain = c
  d = probe_cls()()
  sets = []
  for op in chain:
    d = probe_ops()[op](d)
    if op in "ABC":
      sets.insert(0, {"A": A, "B": B, "C": C}[op])
  want = expected_options(*sets)
  cuts = [i for i, op in enumerate(chain) if op in NESTING]
  # The options of one of several interleaved datasets hold for that one only.
  above = [o for i, o in enumerate(chain) if o in "ABC" and not (cuts and i < cuts[-1])]
  sibling = expected_options(*[{"A": A, "B": B, "C": C}[o] for o in above[::-1]])
  mids = {want, sibling}
  for k in cuts:
    mids.add(expected_options(*[{"A": A, "B": B, "C": C}[o] for i, o in enumerate(chain)
                                if o in "ABC" and i > k][::-1]))

  def run():
    it = iter(d)
    got = []
    for _ in range(8):
      try:
        got.append(next(it))
      except StopIteration:
        break
    it.close()
    return got
  got = simrun.call(run)
  res.transitions += len(got)
  res.executions += 1
  res.states += 1
  if not got:
    raise Violation("no elements")
  if want not in got or any(g not in mids for g in got):
    raise Violation(f"the source sees the options {sorted(set(got), key=str)} instead of {want}")


# --- bookkeeping -------------------------------------------------------------------------------------


PROBE_OPS = ("A", "B", "C", "map", "filter", "thread", "thread0", "repeat", "limit", "cache", "flat",
             "inter1", "inter2", "inter2b", "zip", "mix", "seed", "threads2", "mp1", "mp2")
FEW = ("A", "B", "thread", "thread0", "repeat", "inter2", "inter2b", "cache", "zip", "mp1", "mp2",
       "threads2")
CORE = ("timing", "timing first", "debug", "graph")


def configs(tier):
  q = tier == "quick"
  out = []
  every = tuple(m for m in modes() if m != "plain")
  for s in pipes.sources():
    for x in [None, *pipes.names()]:
      ch = (x,) if x else ()
      if pipes.well_formed(ch):
        out.append(("pipe", (s, 4, ch, "", every if x is None or not q or s == "src" else CORE)))
  names = [x for x in pipes.names() if x != "repeatinf_limit7"]
  for ch in itertools.product(names, repeat=2):
    if pipes.well_formed(ch):
      out.append(("pipe", ("src", 4, ch, "", ("both",) if q else CORE)))
      if not q:
        out.append(("pipe", ("gen", 4, ch, "", ("both",))))
  for k in ("thread", "threads2", "mp1", "mp2", "mp2+", "zipmp", "zipmp2", "mpzip"):
    for s in ("src", "gen", "mshuf", "mmix"):
      for x in [None, "map", "batch2", "filter", "flatmap", "interleave2", "zip", "ffd", "options"]:
        ch = (x,) if x else ()
        if x == "interleave2" or x is not None and x not in pipes.names():
          continue
        if q and (s in ("mshuf", "mmix") and x or k in ("mp2+", "zipmp2", "mpzip") and s != "src"):
          continue
        out.append(("pipe", (s, 4, ch, k, (CORE if not q else ("timing", "debug", "graph"))
                             if k.startswith("mp") or k.startswith("zip") else every)))
  tr = list(mapds.ops())
  for s in mapds.sources():
    for n in (1, 4):
      for ch in [()] + [(x,) for x in tr]:
        out.append(("map", (s, n, ch)))
  for ch in itertools.product(tr, repeat=2):
    if mapds.well_formed(ch):
      out.append(("map", ("list", 4, ch)))
  for k in kinds():
    for p in kind_places():
      out.append(("kind", (k, p, CORE if q else every)))
  for err in ERRORS:
    for at in (0, 1, 3):
      for w in ("map", "mmap", "filter", "batch", "inter"):
        for kind in ("", "thread", "mp1", "mp2"):
          if q and kind and (err not in ("value", "odd") or at == 3):
            continue
          out.append(("fail", (err, at, w, kind, ("timing", "debug", "graph", "tb off", "tb remove")
                               if kind and q else every)))
  pops = [o for o in PROBE_OPS]
  for depth in (1, 2, 3, 4):
    for ch in itertools.product(pops, repeat=depth):
      n = sum(o in "ABC" for o in ch)
      heavy = [o for o in ch if o.startswith("mp")]
      if (n == 0 or len(heavy) > 1 or ch.count("threads2") + len(heavy) > 1
          or depth == 4 and (n < 2 or n == 4 or q and ch[-1] not in "AB")):
        continue
      if depth == 4 and q and not (ch[0] in "AB" and "C" not in ch and len(set(ch)) > 2
                                   and ch[1] in FEW and ch[2] in FEW):
        continue
      if depth == 3 and q and n == 1 and not (ch[2] in "AB" and ch[0] in FEW and ch[1] in FEW):
        continue
      if depth == 3 and n == 3:
        continue
      out.append(("probe", ch))
  for k in range(8):
    out.append(("options", ("merge", k, 8)))
    out.append(("options", ("nest", k, 8)))
  return out


def label(c):
  kind, x = c
  if kind == "pipe":
    return f"{x[0]}({x[1]}) {'+'.join(x[2])}{' ' + x[3] if x[3] else ''}"
  if kind == "map":
    return f"random access {x[0]}({x[1]}) {'+'.join(x[2])}"
  if kind == "kind":
    return f"element {x[0]} in {x[1]}"
  if kind == "fail":
    return f"{x[0]} error at {x[1]} in {x[2]}{' ' + x[3] if x[3] else ''}"
  if kind == "probe":
    return "options " + "+".join(x)
  return f"options {x[0]} {x[1]}"


def cases(tier):
  cs = configs(tier)
  out = []
  for kind, n in (("pipe", 32), ("map", 8), ("kind", 16), ("fail", 12), ("options", 16),
                  ("probe", 16)):
    sel = [c for c in cs if c[0] == kind]
    out += report.chunked(sel, n if tier == "quick" else 3 * n, kind)
  return out


def explore(res, name, cs):
  setup()
  shm.install()
  for c in cs:
    shm.reset()
    f = {"pipe": pipe_case, "map": map_case, "kind": kind_case, "fail": fail_case,
         "options": options_case, "probe": probe_case}[c[0]]
    try:
      with hang_guard(120):
        f(res, c[1])
        res.distinct += 1
    except Violation as e:
      res.violation(label(c), f"{label(c)}: {e}", {"case": name, "config": label(c)})
    except Hang as e:
      res.violation(label(c), f"{label(c)}: does not terminate: {e}", {"case": name})
    except Exception as e:  # pylint: disable=broad-except
      tb = "".join(traceback.format_exc().splitlines(True)[-12:])
      res.violation(label(c), f"{label(c)}: raises {type(e).__name__}: {e}\n{tb}",
                    {"case": name, "config": label(c)})
  res.samples.append(label(cs[0]) if cs else "")
