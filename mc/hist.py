"""Explicit-state exploration of all operation histories of a real iterator.

A state of the system is: the live iterator (its whole object graph), and up to
`slots` saved checkpoints.  Operations: advance, save into a slot, restore a slot
in place, restore a slot into a fresh iterator, the same through JSON, and
starting over with a fresh iterator.  Every transition runs the real code; after
each of them the position oracle and the immutability of every saved state are
checked.  States are merged by the canonical form of the object graph (aliasing
included), so when the frontier runs dry *all* reachable histories of any length
are covered; otherwise the depth bound is what limits the exploration.
"""
import collections
import copy
import json

from mc import canon as canon_lib
from mc import vals
from mc.report import Violation

STOP = "<stop>"


def plain(state):
  """A deep copy of a checkpoint that shares nothing with it."""
  return copy.deepcopy(state)


def same_state(a, b):
  return vals.norm(a) == vals.norm(b)


def run_to_end(it, limit=10000):
  out = []
  for _ in range(limit):
    try:
      out.append(vals.norm(next(it)))
    except StopIteration:
      return out
  return out + ["<more>"]


class _Sys:
  def __init__(self, build, expected, slots, close):
    self.build = build
    self.expected = expected
    self.ds = build()
    self.it = iter(self.ds)
    self.pos = 0
    self.saved = [None] * slots  # (state object, untouched copy, pos)
    self.close_it = close

  def fresh(self):
    if self.close_it:
      self.it.close()
    self.it = iter(self.ds)

  def check_saved(self, path):
    for i, s in enumerate(self.saved):
      if s is not None and not same_state(s[0], s[1]):
        raise Violation(
            f"a saved state changed after it was taken: history {path},"
            f" slot {i} taken at position {s[2]} was {s[1]} and is now {s[0]}")

  def apply(self, op, path, check=True):
    kind = op[0]
    if kind == "next" and not check:
      try:
        next(self.it)
        self.pos += 1
      except StopIteration:
        pass
      return
    if kind == "next":
      try:
        got = vals.norm(next(self.it))
      except StopIteration:
        got = STOP
      want = (self.expected[self.pos] if self.pos < len(self.expected) else STOP)
      if got != want:
        raise Violation(
            f"after history {path} the iterator at position {self.pos} gave"
            f" {str(got)[:300]}, an uninterrupted run gives {str(want)[:300]}")
      if got != STOP:
        self.pos += 1
    elif kind == "save":
      st = self.it.get_state()
      self.saved[op[1]] = (st, plain(st), self.pos)
    elif kind == "restore":
      st = self.saved[op[1]]
      self.it.set_state(st[0])
      self.pos = st[2]
    elif kind == "fresh":
      st = self.saved[op[1]]
      self.fresh()
      self.it.set_state(st[0])
      self.pos = st[2]
    elif kind == "json":
      st = self.saved[op[1]]
      self.fresh()
      self.it.set_state(json.loads(json.dumps(st[1])))
      self.pos = st[2]
    elif kind == "jsonin":
      st = self.saved[op[1]]
      self.it.set_state(json.loads(json.dumps(st[1])))
      self.pos = st[2]
    elif kind == "new":
      self.fresh()
      self.pos = 0
    elif kind in ("index", "freshindex"):
      if kind == "freshindex":
        self.fresh()
      self.it._set_next_index(op[1])
      self.pos = op[1]
    elif kind == "getindex":
      got = self.it._get_next_index()
      if check and got != self.pos:
        raise Violation(f"after history {path} the reported index is {got},"
                        f" {self.pos} elements were consumed")
    else:
      raise AssertionError(op)
    if check:
      self.check_saved(path)

  def key(self):
    try:
      h, n, _ = canon_lib.canon(self.it, [s and s[0] for s in self.saved])
    except canon_lib.Opaque:
      return None
    return (h, n, self.pos, tuple(s and s[2] for s in self.saved))


def explore(res, name, build, *, slots=1, depth=8, max_states=4000, close=False,
            ops=("next", "save", "restore", "fresh", "json", "jsonin", "new"),
            expected=None, next_past_end=2, max_len=60, abstract_key=False):
  """Explores all histories of `build()`; reports into `res`."""
  it = iter(build())
  first = run_to_end(it, max_len + 1)
  if close:
    it.close()
  if len(first) > max_len and first[-1] == "<more>":
    raise AssertionError("pipeline is too long for exploration")
  if expected is not None:
    want = [vals.norm(v) for v in expected]
    if want != first:
      raise Violation(f"output differs from the reference: {first} != {want}")
  expected = first

  def enabled(s, path):
    out = []
    for o in ops:
      if o == "next":
        # Beyond the end, a bounded number of further attempts.
        n = 0
        for p in reversed(path):
          if p[0] == "next":
            n += 1
          elif p[0] != "save":
            break
        if s.pos < len(expected) or n <= len(expected) + next_past_end:
          out.append(("next",))
      elif o == "save":
        for i in range(slots):
          # Symmetry: fill slots in order.
          if all(s.saved[j] is not None for j in range(i)):
            out.append(("save", i))
      elif o in ("index", "freshindex"):
        out += [(o, i) for i in range(len(expected) + 1)]
      elif o == "getindex":
        if not path or path[-1] != (o,):
          out.append((o,))
      elif o == "new":
        if path and path[-1][0] != "new":
          out.append(("new",))
      else:
        for i in range(slots):
          if s.saved[i] is not None:
            out.append((o, i))
    return out

  def replay(path):
    s = _Sys(build, expected, slots, close)
    for i, op in enumerate(path):
      try:
        s.apply(op, path[:i], check=i == len(path) - 1)
      except Violation:
        raise
      except Exception as e:  # pylint: disable=broad-except
        raise Violation(
            f"operation {op} after history {path[:i]} raised"
            f" {type(e).__name__}: {e}") from e
    return s

  seen = set()
  frontier = collections.deque()
  s0 = replay([])
  seen.add(s0.key())
  frontier.append(([], enabled(s0, [])))
  states, trans, execs, longest = 1, 0, 1, 0
  truncated = False
  while frontier:
    path, todo = frontier.popleft()
    for op in todo:
      p = path + [op]
      s = replay(p)
      execs += 1
      trans += 1
      longest = max(longest, len(p))
      k = s.key()
      if k is not None and k in seen:
        if close:
          s.it.close()
        continue
      if k is not None:
        seen.add(k)
      states += 1
      if len(p) < depth and states < max_states:
        frontier.append((p, enabled(s, p)))
      else:
        truncated = True
      if close:
        s.it.close()
  res.states += states
  res.transitions += trans
  res.executions += execs
  res.extra["fixpoints"] = res.extra.get("fixpoints", 0) + (not truncated)
  res.extra["depth_bounded"] = res.extra.get("depth_bounded", 0) + truncated
  res.extra["longest_history"] = max(res.extra.get("longest_history", 0), longest)
  res.samples.append(f"{name}: {len(expected)} elements, {states} states,"
                     f" {trans} transitions, {'depth bound' if truncated else 'fixpoint'}"
                     f" at history length {longest}")
  return states, trans, truncated
