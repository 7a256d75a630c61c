"""I12: concat-then-split packing neither loses, repeats nor reorders a token."""
import itertools
import json

import numpy as np

from mc import catalog as cat
from mc import hist
from mc import report
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of all short streams of sequence lengths x packer"
             " configurations, and of every checkpoint position, on the real code against"
             " a plain-list packer")
RULE = ("one evaluation = one stream of sequences (all combinations of lengths) under one"
        " packer configuration (target lengths, features, meta features, scalars,"
        " full-length pass through, beginning-of-sequence handling), read to the end; for"
        " short streams every state is restored live, fresh and through JSON."
        " Non-trivial: a sequence is split")
BOS = 7


class Cfg:
  """targets: feature -> length; kinds: feature -> seq | scalar | rows | float."""

  def __init__(self, targets, kinds=None, meta=(), split=True, bos=()):
    self.targets, self.meta, self.split, self.bos = targets, meta, split, bos
    self.kinds = kinds or {}

  def __repr__(self):
    return ", ".join(f"{k}={v}" for k, v in self.__dict__.items())


def feature(kind, i, f, n):
  base = 100 * (i + 1) + 10 * f
  if kind == "scalar":
    return base
  if kind == "rows":
    return np.arange(2 * n, dtype=np.int16).reshape(n, 2) + base
  if kind == "float":
    return np.arange(n, dtype=np.float32) + base + 0.5
  return np.arange(n, dtype=np.int32) + base


def make_elements(lens, c):
  return [{k: feature(c.kinds.get(k), i, f, n)
           for f, (k, n) in enumerate(zip(c.targets, ls))} for i, ls in enumerate(lens)]


def ref_pack(elements, c):
  """Rows; a row is a list of (element, {feature: (start, stop)})."""
  keys = list(c.targets)
  length = lambda e, k: np.atleast_1d(e[k]).shape[0]
  rows, rest, i = [], None, 0
  cut_any = False
  while True:
    row, fill, passed = [], {k: 0 for k in keys}, []
    done = False
    while True:
      if rest is None:
        if i == len(elements):
          done = True
          break
        e = elements[i]
        i += 1
        span = {k: (0, length(e, k)) for k in keys}
        if (not c.split and all(span[k][1] <= c.targets[k] for k in keys)
            and any(span[k][1] == c.targets[k] for k in keys)):
          passed.append([(e, span)])
          continue
      else:
        e, span = rest
        rest = None
      size = {k: span[k][1] - span[k][0] for k in keys}
      free = {k: c.targets[k] - fill[k] for k in keys}
      if any(size[k] > free[k] for k in c.meta):
        rest = e, span
        break
      take = {k: min(size[k], free[k]) for k in keys}
      cut = take != size
      if cut and not any(take[k] for k in keys if k not in c.meta):
        rest = e, span
        break
      row.append((e, {k: (span[k][0], span[k][0] + take[k]) for k in keys}))
      for k in keys:
        fill[k] += take[k]
      if cut:
        cut_any = True
        rest = e, {k: span[k] if k in c.meta else (span[k][0] + take[k], span[k][1])
                   for k in keys}
        break
    rows += [row] if row else []
    rows += passed
    if done:
      return rows, cut_any


def render(rows, c, elements):
  """The arrays the rows stand for."""
  out = []
  for row in rows:
    r = {}
    for k, t in c.targets.items():
      x = np.asarray(elements[0][k])
      v = np.zeros((t, *x.shape[1:]), x.dtype)
      seg, pos = np.zeros(t, np.int32), np.zeros(t, np.int32)
      at = 0
      for s, (e, span) in enumerate(row, 1):
        a, b = span[k]
        part = np.atleast_1d(e[k])[a:b]
        for j in range(b - a):
          v[at] = BOS if j == 0 and k in c.bos else part[j]
          seg[at], pos[at] = s, j
          at += 1
      r[k] = v
      if k not in c.meta:
        r[k + "_segment_ids"], r[k + "_positions"] = seg, pos
    out.append(r)
  return out


def build(elements, c):
  g = cat.g()
  d = g.MapDataset.source(elements).to_iter_dataset(cat.ro())
  e = g.experimental
  B = e.BOSHandling if hasattr(e, "BOSHandling") else None
  if B is None:
    from grain._src.python.dataset.transformations import packing_concat_then_split as p
    B = p.BOSHandling
  kw = {}
  if c.bos:
    kw = dict(bos_handling=B.REPLACE_FIRST_TOKEN_WITH_BOS, bos_features=c.bos,
              bos_token_id=BOS)
  return e.ConcatThenSplitIterDataset(
      d, length_struct=c.targets, meta_features=c.meta,
      split_full_length_features=c.split, **kw)


def configs(tier):
  """(configuration, streams of lengths, check all states)."""
  q = tier == "quick"
  for t in (1, 2, 3, 4):
    for split in (True, False):
      for bos in ((), ("a",)):
        c = Cfg({"a": t}, split=split, bos=bos)
        for n in range(0, 4 if q else 6):
          for ls in itertools.product(range(6 if n < 3 or not q else 5), repeat=n):
            yield c, [(x,) for x in ls], n < 3 or not q
        if q:
          for ls in itertools.product((0, 1, 3), repeat=4):
            yield c, [(x,) for x in ls], False
  for ta, tb in itertools.product((1, 2, 3), (1, 2, 3)):
    for split in (True, False):
      for bos in ((), ("b",)):
        if bos and not split and q:
          continue
        c = Cfg({"a": ta, "b": tb}, split=split, bos=bos)
        two = list(itertools.product((0, 1, 2, 3, 5), (0, 1, 2, 4)))
        three = list(itertools.product((0, 1, 4), (1, 3)))
        for n in (1, 2):
          for ls in itertools.product(two, repeat=n):
            yield c, list(ls), not q or sum(map(sum, ls)) < 7
        for ls in itertools.product(three, repeat=3):
          yield c, list(ls), not q
  kinds = [({"m": "scalar"}, ("m",)), ({}, ("m",)), ({"m": "scalar"}, ()),
           ({"a": "rows"}, ()), ({"a": "float", "m": "scalar"}, ("m",)),
           ({"a": "rows", "m": "rows"}, ("m",))]
  for ks, meta in kinds:
    for ta, tm in itertools.product((1, 2, 3), (1, 2, 3)):
      for split in (True, False):
        for bos in ((), ("a",)):
          if bos and q and (not split or "a" in ks):
            continue
          c = Cfg({"a": ta, "m": tm}, ks, meta, split, bos)
          ms = (1,) if ks.get("m") == "scalar" else (0, 1, 2) if tm > 1 else (0, 1)
          one = list(itertools.product((0, 1, 2, 4), ms))
          for n in (1, 2, 3):
            if n == 3 and len(ms) > 1:
              one = [x for x in one if x[0] != 2 and x[1] != 0]
            for ls in itertools.product(one, repeat=n):
              yield c, list(ls), n < 3 or not q


def cases(tier):
  return report.chunked(configs(tier), 64 if tier == "quick" else 512, "streams")


def explore(res, name, items):
  for c, lens, deep in items:
    label = f"[{c}] lengths {lens}"
    try:
      with hang_guard(60):
        one(res, c, lens, deep)
    except Violation as e:
      res.violation(label, f"{label}: {e}", {"case": name})
    except Hang as e:
      res.violation(label, f"{label}: does not terminate: {e}", {"case": name})
    except Exception as e:  # pylint: disable=broad-except
      import traceback
      res.violation(label, f"{label}: raised {type(e).__name__}: {e}\n"
                    + traceback.format_exc()[-1500:], {"case": name})
  res.samples.append(f"{name}: [{items[-1][0]}] lengths {items[-1][1]}")


def one(res, c, lens, deep):
  elements = make_elements(lens, c)
  rows, cut = ref_pack(elements, c)
  want = [vals.norm(r) for r in render(rows, c, elements)]
  res.executions += 1
  res.distinct += cut
  ds = build(elements, c)
  it = iter(ds)
  states = []
  for i in range(len(want) + 1):
    if deep:
      states.append((i, it.get_state()))
    try:
      got = vals.norm(next(it))
    except StopIteration:
      got = hist.STOP
    w = want[i] if i < len(want) else hist.STOP
    if got != w:
      raise Violation(f"row {i} is {str(got)[:500]} instead of {str(w)[:500]}")
  if deep:
    states.append((len(want), it.get_state()))
  for i, s in states:
    for how in ("live", "fresh", "json"):
      t = it if how == "live" else iter(ds)
      t.set_state(s if how != "json" else json.loads(json.dumps(s)))
      got = hist.run_to_end(t, len(want) + 3)
      res.executions += 1
      if got != want[i:]:
        raise Violation(f"the state before row {i} restored ({how}) continues with"
                        f" {str(got)[:500]} instead of {str(want[i:])[:500]}")
