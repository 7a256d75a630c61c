"""F01: an element that fails is reported in its place and costs nothing else."""
import collections
import functools
import itertools
import json

from mc import canon as canon_lib
from mc import catalog as cat
from mc import inline
from mc import report
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all operation histories on the real iterators,"
             " with every set of failing elements, monitored by a nondeterministic reference"
             " automaton of the pipeline")
RULE = ("for every pipeline, length and set of up to two failing elements: every history"
        " over next / save / restore in place / restore into a fresh iterator / the same"
        " through JSON, breadth first on the real iterator to a fixpoint of canonical object"
        " graphs; after a failure the automaton allows the failed element to be tried again"
        " or to be passed, and nothing else to be lost, repeated or moved")
ASSUMPTIONS = ("a failing element fails whenever it is computed",
               "elements collected for a batch that fails may be lost with it",
               "background work runs at once (inline executor); schedules are covered by S01, S02")

V, E, S = "value", "error", "stop"


class Boom(Exception):
  pass


# --- reference automata: step(state) -> [(kind, value, next state)] --------------


class Base:
  def __init__(self, data, bad):
    self.data, self.bad = data, bad
    self.init = 0

  def step(self, p):
    if p == len(self.data):
      return [(S, None, p)]
    if self.data[p] in self.bad:
      return [(E, None, p), (E, None, p + 1)]
    return [(V, self.data[p], p + 1)]


class Node:
  def __init__(self, parent):
    self.p = parent
    self.init = self.start()

  def start(self):
    return self.p.init


class Map(Node):
  def __init__(self, parent, f):
    super().__init__(parent)
    self.f = f

  def step(self, s):
    return [(k, self.f(v) if k == V else None, t) for k, v, t in self.p.step(s)]


class Index(Node):
  def start(self):
    return (0, self.p.init)

  def step(self, s):
    i, s = s
    out = []
    for k, v, t in self.p.step(s):
      if k == V:
        out.append((V, cat.m_idx(i, v), (i + 1, t)))
      else:
        out.append((k, None, (i, t)))
        if k == E:
          out.append((k, None, (i + 1, t)))
    return out


class Filter(Node):
  def __init__(self, parent, f):
    super().__init__(parent)
    self.f = f

  def step(self, s):
    out = []
    todo = [s]
    while todo:
      for k, v, t in self.p.step(todo.pop()):
        if k == V and not self.f(v):
          todo.append(t)
        else:
          out.append((k, v, t))
          if k == E:
            out.append((k, v, s))
    return out


class Batch(Node):
  def __init__(self, parent, n, drop, fn):
    super().__init__(parent)
    self.n, self.drop, self.fn = n, drop, fn

  def step(self, s):
    out = []
    todo = [((), s)]
    while todo:
      got, t = todo.pop()
      for k, v, u in self.p.step(t):
        if k == V and len(got) + 1 < self.n:
          todo.append((got + (v,), u))
        elif k == V:
          out.append((V, self.fn(list(got + (v,))), u))
        elif k == E:
          out += [(E, None, u), (E, None, s)]
        elif got and not self.drop:
          out.append((V, self.fn(list(got)), u))
        else:
          out.append((S, None, u))
    return out


class Box:
  """A value that can be part of a state."""

  def __init__(self, v):
    self.v = v
    self.n = vals.norm(v)

  def __eq__(self, o):
    return self.n == o.n

  def __hash__(self):
    return hash(self.n)


class Flat(Node):
  def start(self):
    return ((), self.p.init)

  def step(self, s):
    out = []
    todo = [s]
    while todo:
      buf, t = todo.pop()
      if buf:
        out.append((V, buf[0].v, (buf[1:], t)))
        continue
      for k, v, u in self.p.step(t):
        if k == V:
          todo.append((tuple(map(Box, cat.flat_model([v]))), u))
        else:
          out.append((k, None, ((), u)))
          if k == E:
            out.append((k, None, s))
    return out


class Limit(Node):
  def __init__(self, parent, n):
    self.n = n
    super().__init__(parent)

  def start(self):
    return (0, self.p.init)

  def step(self, s):
    c, s = s
    if c == self.n:
      return [(S, None, (c, s))]
    return [(k, v, (c + (k == V), t)) for k, v, t in self.p.step(s)]


class Repeat(Node):
  def __init__(self, parent, n):
    self.n = n
    super().__init__(parent)

  def start(self):
    return (0, self.p.init)

  def step(self, s):
    out = []
    todo = [s]
    while todo:
      e, t = todo.pop()
      for k, v, u in self.p.step(t):
        if k == S and e + 1 < self.n:
          todo.append((e + 1, self.p.init))
        else:
          out.append((k, v, (e, u)))
    return out


class Joint(Node):
  """Reads from several: this pipeline and sources that do not fail."""

  def __init__(self, parent, others):
    self.parents = [parent] + [Base(o, ()) for o in others]
    super().__init__(parent)

  def start(self):
    return (0, tuple(p.init for p in self.parents), False)


class Zip(Joint):
  def step(self, s):
    _, st, stop = s
    out = []
    todo = [((), st)]
    while todo:
      got, t = todo.pop()
      i = len(got)
      if i == len(self.parents):
        out.append((V, got, (0, t, stop)))
        continue
      for k, v, u in self.parents[i].step(t[i]):
        w = t[:i] + (u,) + t[i + 1:]
        if k == V:
          todo.append((got + (v,), w))
        else:
          out.append((k, None, (0, w, stop)))
    return out


class Mix(Joint):
  def __init__(self, parent, others, pattern):
    self.pattern = pattern
    super().__init__(parent, others)

  def step(self, s):
    n, st, stop = s
    if stop:
      return [(S, None, s)]
    i = self.pattern[n]
    out = []
    for k, v, u in self.parents[i].step(st[i]):
      w = st[:i] + (u,) + st[i + 1:]
      if k == V:
        out.append((V, v, (n + 1, w, False)))
      elif k == E:
        out += [(E, None, (n, w, False)), (E, None, (n + 1, w, False))]
      else:
        out.append((S, None, (n + 1, w, True)))
    return out


class Interleave(Joint):
  def __init__(self, parent, others, cycle):
    self.cycle = min(cycle, 1 + len(others))
    super().__init__(parent, others)

  def start(self):
    return (0, 0, (None,) * self.cycle)  # next slot, next dataset, slots

  def step(self, s):
    out = []
    todo = [s]
    while todo:
      i, d, slots = todo.pop()
      nx = (i + 1) % self.cycle
      if slots[i] is None:
        if d < len(self.parents):
          todo.append((i, d + 1, slots[:i] + ((d, self.parents[d].init),) + slots[i + 1:]))
        elif all(x is None for x in slots):
          out.append((S, None, (i, d, slots)))
        else:
          todo.append((nx, d, slots))
        continue
      j, t = slots[i]
      for k, v, u in self.parents[j].step(t):
        w = slots[:i] + ((j, u),) + slots[i + 1:]
        if k == V:
          out.append((V, v, (nx, d, w)))
        elif k == E:
          out += [(E, None, (i, d, w)), (E, None, (nx, d, w))]
        else:
          todo.append((nx, d, slots[:i] + (None,) + slots[i + 1:]))
    return out


class Rebatch(Node):
  def __init__(self, parent, n, drop):
    self.n, self.drop = n, drop
    super().__init__(parent)

  def start(self):
    return ((), self.p.init)

  def step(self, s):
    out = []
    todo = [s]
    while todo:
      have, t = todo.pop()
      if len(have) >= self.n:
        out.append((V, cat.stack(list(have[:self.n])), (have[self.n:], t)))
        continue
      for k, v, u in self.p.step(t):
        if k == V:
          todo.append((have + tuple(cat.np.asarray(r).item() for r in v), u))
        elif k == E:
          out += [(E, None, (have, u)), (E, None, s)]
        elif have and not self.drop:
          out.append((V, cat.stack(list(have)), ((), u)))
        else:
          out.append((S, None, ((), u)))
    return out


# --- pipelines -------------------------------------------------------------------


@functools.cache
def pattern(kind):
  """The order in which the mixtures read their parents, from runs without failures."""
  from mc import pipes
  if kind == "mix":
    d = cat.g().IterDataset.mix([cat.src(30), cat.src(30, 100)], [2, 1])
    return [v // 100 for v in d][:30]
  d = cat.g().IterDataset.mix({"b": cat.src(30), "a": cat.src(30, 100)}, {"a": 1, "b": 1})
  return [int(v) // 100 for v in d][:30]


@functools.cache
def ops():
  """name -> (apply, automaton)."""
  g = cat.g()
  e = g.experimental
  Fan = cat.flat_cls()
  t = {}
  t["map"] = (lambda d: d.map(cat.m_inc), lambda m: Map(m, cat.m_inc))
  t["index"] = (lambda d: d.map_with_index(cat.m_idx), Index)
  t["filter"] = (lambda d: d.filter(cat.f_mod3), lambda m: Filter(m, cat.f_mod3))
  t["batch2"] = (lambda d: d.batch(2), lambda m: Batch(m, 2, False, cat.stack))
  t["batch2drop"] = (lambda d: d.batch(2, drop_remainder=True),
                     lambda m: Batch(m, 2, True, cat.stack))
  t["batch3fn"] = (lambda d: d.batch(3, batch_fn=cat.tolist_fn),
                   lambda m: Batch(m, 3, False, list))
  t["flatmap"] = (lambda d: e.FlatMapIterDataset(d, Fan()), Flat)
  t["limit3"] = (lambda d: e.LimitIterDataset(d, 3), lambda m: Limit(m, 3))
  t["repeat2"] = (lambda d: e.RepeatIterDataset(d, 2), lambda m: Repeat(m, 2))
  t["options"] = (lambda d: e.WithOptionsIterDataset(d, e.DatasetOptions()), lambda m: m)
  t["zip"] = (lambda d: e.ZipIterDataset([d, cat.src(4, 50)], strict=False),
              lambda m: Zip(m, [list(range(50, 54))]))
  t["mix"] = (lambda d: g.IterDataset.mix([d, cat.src(4, 70)], [2, 1]),
              lambda m: Mix(m, [list(range(70, 74))], pattern("mix")))
  t["mixdict"] = (
      lambda d: g.IterDataset.mix({"b": d, "a": cat.src(3, 70)}, {"a": 1, "b": 1}),
      lambda m: Mix(m, [list(range(70, 73))], pattern("mixdict")))
  for c in (1, 2, 3):
    t[f"interleave{c}"] = (
        lambda d, c=c: cat.interleave(d, [cat.src(1, 30), cat.gen_src(2, 40)], c),
        lambda m, c=c: Interleave(m, [[30], [40, 41]], c))
  for n in (1, 3):
    t[f"rebatch{n}"] = (lambda d, n=n: e.RebatchIterDataset(d, n),
                        lambda m, n=n: Rebatch(m, n, False))
  t["rebatch3drop"] = (lambda d: e.RebatchIterDataset(d, 3, drop_remainder=True),
                       lambda m: Rebatch(m, 3, True))
  return t


def fail_fn(bad):
  @cat.Fn
  def fail(x):
    if cat.num(x) in bad:
      raise Boom(x)
    return x
  return fail


def build(base, n, bad, chain):
  M = cat.g().MapDataset
  f = fail_fn(bad)
  if base == "iter":
    d = cat.src(n).map(f)
  elif base == "gen":
    d = cat.gen_src(n).map(f)
  else:
    d = M.source(list(range(n))).map(f)
    b = {"map1": (1, 1), "map3": (2, 3)}.get(base, (0, 1))
    d = d.to_iter_dataset(cat.ro(*b))
  for c in chain:
    d = prefix_ops()[c[1:]](d) if c[0] == "!" else ops()[c][0](d)
  return d


def automaton(n, bad, chain):
  m = Base(list(range(n)), bad)
  for c in chain:
    m = ops()[c][1](m)
  return m


def well_formed(c):
  for i, o in enumerate(c):
    if o.startswith("rebatch") and not (i and c[i - 1] in ("batch2", "batch2drop")):
      return False
    if o.startswith("batch") and any(p.startswith(("batch", "rebatch")) for p in c[:i]):
      return False
    if o == "flatmap" and c[i - 1:i] and c[i - 1][:5] in ("flatm", "inter"):
      return False  # the state they report between a failure and the next element is the one before
    if c[i - 1:i] == ("zip",) and o.startswith("batch2"):
      return False
  return True


BASES = ("iter", "gen", "map0", "map1", "map3")


# Left out of chains in the quick tier.
DULL = ("options", "map", "interleave1", "interleave3", "rebatch1", "rebatch3drop", "mix",
        "batch2drop")


def configs(tier):
  q = tier == "quick"
  names = sorted(ops())
  for base in BASES:
    main = base in ("iter", "map3")
    for depth in (0, 1, 2) if q else (0, 1, 2, 3):
      if not main and depth > (1 if q else 2):
        continue
      for c in itertools.product(names, repeat=depth):
        if not well_formed(c) or depth == (2 if q else 3) and any(x in DULL for x in c):
          continue
        for n in (3,) if q or depth == 3 else (2, 5) if depth < 2 else (4,):
          for k in (1, 2) if depth < 2 and main or not q and depth < 3 else (1,):
            for bad in itertools.combinations(range(n), k):
              if q and depth == 2 and bad != ((1,) if base == "iter" else (0,)):
                continue
              yield base, n, bad, c


def cases(tier):
  cs = list(configs(tier))
  # What has no automaton: only up to the first failure.
  for c in sorted(prefix_ops()):
    for base in BASES:
      for n in (3, 6) if tier == "quick" else (3, 4, 5, 6, 7, 8):
        for f in range(n):
          cs.append((base, n, (f,), ("!" + c,)))
  return report.chunked(cs, 96 if tier == "quick" else 512, "pipelines")


@functools.cache
def prefix_ops():
  from mc import pipes
  t = pipes.all_transforms()
  return {k: v[0] for k, v in t.items() if k.startswith(("wshuffle", "cts", "ffd", "bfd", "random",
                                                         "cache"))}


def label(c):
  return f"{c[0]}({c[1]}) failing {c[2]}" + "".join(">" + x for x in c[3])


def explore(res, name, cs):
  inline.patch()
  for c in cs:
    try:
      with hang_guard(60):
        if c[3] and c[3][0][0] == "!":
          prefix(res, c)
        else:
          histories(res, c)
    except Violation as e:
      res.violation(label(c), f"{label(c)}: {e}", {"case": name, "config": label(c)})
    except Hang as e:
      res.violation(label(c), f"{label(c)}: does not terminate: {e}", {"case": name})


class Sys:
  def __init__(self, ds, m):
    self.m = m
    self.ds = ds
    self.it = iter(self.ds)
    self.p = frozenset([m.init])
    self.saved = None

  def apply(self, op, path):
    if op == "next":
      try:
        got = (V, vals.norm(next(self.it)))
      except StopIteration:
        got = (S, None)
      except Boom:
        got = (E, None)
      may = [(k, vals.norm(v) if k == V else None, t) for s in self.p for k, v, t in self.m.step(s)]
      p = frozenset(t for k, v, t in may if (k, v) == got)
      if not p:
        want = sorted({f"{k} {v}" if k == V else k for k, v, _ in may})
        raise Violation(f"after {path} next() gave {got[0]} {str(got[1])[:200]},"
                        f" only {', '.join(want)[:300]} is allowed")
      self.p = p
      return got
    if op == "save":
      st = self.it.get_state()
      self.saved = (st, json.dumps(st), self.p)
      return None
    st, js, p = self.saved
    if op in ("fresh", "json"):
      self.it = iter(self.ds)
    self.it.set_state(json.loads(js) if op == "json" else st)
    self.p = p

  def key(self):
    return canon_lib.canon(self.it, self.saved and self.saved[0])[:2] + (
        self.p, self.saved and self.saved[2])


OPS = ("next", "save", "restore", "json", "fresh")


def histories(res, c, limit=1500, depth=24):
  m = automaton(*c[1:])
  ds = build(*c)

  def replay(path):
    s = Sys(ds, m)
    got = None
    for i, op in enumerate(path):
      try:
        got = s.apply(op, path[:i])
      except Violation:
        raise
      except Exception as e:  # pylint: disable=broad-except
        raise Violation(f"{op} after {path[:i]} raised {type(e).__name__}: {e}") from e
    return s, got

  s, _ = replay(())
  seen = {s.key()}
  todo = collections.deque([()])
  failed = truncated = False
  while todo:
    path = todo.popleft()
    for op in OPS if len(c[3]) < 2 else OPS[:4]:
      if op == "save" and path[-1:] == ("save",) or (
          op not in ("next", "save") and "save" not in path):
        continue
      s, got = replay(path + (op,))
      res.transitions += 1
      res.executions += 1
      failed |= got is not None and got[0] == E
      k = s.key()
      if k in seen:
        continue
      seen.add(k)
      if len(path) + 1 < depth and len(seen) < limit:
        todo.append(path + (op,))
      else:
        truncated = True
  res.states += len(seen)
  res.distinct += failed
  x = "depth_bounded" if truncated else "fixpoints"
  res.extra[x] = res.extra.get(x, 0) + 1
  res.samples.append(f"{label(c)}: {len(seen)} states")


def prefix(res, c):
  """The elements before the failure, and every state before it."""
  base, n, (f,), chain = c
  # How many elements are delivered before the one that fails is needed.
  asked = []
  d = cat.gen_src(n).map(cat.Fn(lambda x: asked.append(x) or x))
  good = []
  it = iter(prefix_ops()[chain[0][1:]](d))
  place = None
  while True:
    try:
      x = vals.norm(next(it))
    except StopIteration:
      break
    finally:
      if f in asked and place is None:
        place = len(good)
    good.append(x)
  ds = build(*c)

  def run(it, start):
    for i in range(start, place + 1):
      try:
        got = (V, vals.norm(next(it)))
      except StopIteration:
        got = (S, None)
      except Boom:
        got = (E, None)
      want = (V, good[i]) if i < place else (E, None)
      if got != want:
        raise Violation(f"read from element {start}: {got} at position {i}, expected {want}")
      res.transitions += 1
      if start == 0:
        yield

  it = iter(ds)
  states = [it.get_state()]
  for _ in run(it, 0):
    states.append(it.get_state())
  # A state can only be taken up again without what follows it up to the failure.
  for j, st in enumerate(states[:-1]):
    for s in (st, json.loads(json.dumps(st))):
      it = iter(ds)
      it.set_state(s)
      list(run(it, j))
      res.executions += 1
  res.states += len(states)
  res.distinct += 1
