"""I20: tree utilities keep structures, with and without jax."""
import collections
import contextlib
import dataclasses
import importlib.util
import itertools
import os
import sys
import traceback

import numpy as np

from mc import boot
from mc import report
from mc import simrun
from mc.report import Hang, Violation, hang_guard

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of all nestings of the supported containers up to a number"
             " of nodes (and of all pairs of such nestings), every tree function of both"
             " implementations run on each and compared with plain recursive definitions; and of"
             " all key orders of the elements of short pipelines")
RULE = ("one evaluation = one tree, one pair of trees, or one pipeline over elements in one"
        " combination of key orders, under one of the two implementations (jax's and the pure"
        " Python one, loaded with the import of jax refused)")
ASSUMPTIONS = (
    "trees that differ only in the kind of a sequence or a mapping, or in the key order of an"
    " OrderedDict, may be refused or mapped by key: the implementations are free to choose",
)

pre_boot = simrun.install

N1 = collections.namedtuple("N1", ["p"])
N2 = collections.namedtuple("N2", ["q", "p"])
KEYS = ("b", "a", "c")  # insertion order differs from the sorted one


# --- all trees ---------------------------------------------------------------------


def forests(n, k):
  """All sequences of k trees with n nodes altogether."""
  if k == 0:
    if n == 0:
      yield ()
    return
  for m in range(1, n - k + 2):
    for t in shapes(m):
      for rest in forests(n - m, k - 1):
        yield (t,) + rest


def shapes(n):
  """All tree shapes with n nodes: (kind, keys, children)."""
  if n == 1:
    yield ("leaf", (), ())
    yield ("none", (), ())
  for k in range(n):
    for f in forests(n - 1, k) if n > 1 or k == 0 else ():
      yield ("list", (), f)
      yield ("tuple", (), f)
      if k in (1, 2):
        yield ("nt", (), f)
      for keys in itertools.permutations(KEYS[:k]):
        for kind in ("dict", "od", "dd"):
          yield (kind, keys, f)


def build(shape, leaf):
  kind, keys, ch = shape
  if kind == "leaf":
    return leaf()
  if kind == "none":
    return None
  if kind in ("list", "tuple", "nt"):
    xs = [build(c, leaf) for c in ch]
    return (xs if kind == "list" else tuple(xs) if kind == "tuple"
            else (N1, N2)[len(xs) - 1](*xs))
  items = [(k, build(c, leaf)) for k, c in zip(keys, ch)]
  return (dict(items) if kind == "dict" else collections.OrderedDict(items) if kind == "od"
          else collections.defaultdict(list, items))


def counter(start=0, step=1):
  c = itertools.count(start, step)
  return lambda: next(c)


# --- plain definitions -------------------------------------------------------------

SEQ, MAP = (list, tuple), (dict,)


def is_node(t):
  return t is None or isinstance(t, SEQ + MAP)


def kids(t):
  """(path element, child) in the order in which leaves are listed."""
  if t is None:
    return []
  if isinstance(t, SEQ):
    return list(enumerate(t))
  if isinstance(t, collections.OrderedDict):
    return list(t.items())
  return [(k, t[k]) for k in sorted(t)]


def leaves(t, path=()):
  if not is_node(t):
    return [(path, t)]
  return [l for k, c in kids(t) for l in leaves(c, path + (k,))]


def like(t, new):
  """A node as t with the children taken from the mapping new."""
  if isinstance(t, SEQ):
    xs = [new[i] for i in range(len(t))]
    return t.__class__(*xs) if hasattr(t, "_fields") else t.__class__(xs)
  if isinstance(t, collections.defaultdict):
    return collections.defaultdict(t.default_factory, [(k, new[k]) for k in t])
  return t.__class__((k, new[k]) for k in t)


class Mismatch(Exception):
  pass


def mapped(f, t, *others, path=(), is_leaf=None):
  if not is_node(t) or (is_leaf and is_leaf(t)):
    return f(path, t, *others)
  for o in others:
    if t is None:
      same = o is None
    elif isinstance(t, SEQ):
      same = isinstance(o, SEQ) and len(o) == len(t)
    else:
      same = isinstance(o, MAP) and set(o) == set(t)
    if not same:
      raise Mismatch
  if t is None:
    return None
  return like(t, {k: mapped(f, c, *[o[k] for o in others], path=path + (k,), is_leaf=is_leaf)
                  for k, c in kids(t)})


def same_kinds(a, b):
  """Nothing differs that an implementation may refuse."""
  if not is_node(a):
    return True
  if type(a) is not type(b):
    return False
  if isinstance(a, collections.OrderedDict) and list(a) != list(b):
    return False
  return all(same_kinds(c, b[k]) for k, c in kids(a))


def eq(x, y):
  if type(x) is not type(y):
    return False
  if isinstance(x, SEQ):
    return len(x) == len(y) and all(eq(a, b) for a, b in zip(x, y))
  if isinstance(x, MAP):
    if isinstance(x, collections.OrderedDict) and list(x) != list(y):
      return False
    if isinstance(x, collections.defaultdict) and x.default_factory is not y.default_factory:
      return False
    return set(x) == set(y) and all(eq(v, y[k]) for k, v in x.items())
  if isinstance(x, np.ndarray):
    return x.dtype == y.dtype and x.shape == y.shape and bool((x == y).all())
  return x == y


def norm_path(path, t):
  """Path elements as plain keys, whatever objects they come as."""
  out = []
  for p in path:
    if hasattr(p, "idx"):
      p = p.idx
    elif hasattr(p, "name"):
      p = t._fields.index(p.name)
    elif hasattr(p, "key"):
      p = p.key
    out.append(p)
    t = t[p]
  return tuple(out)


# --- the two implementations -------------------------------------------------------

_impls = None


def impls():
  """name -> module; the pure one is loaded with jax out of reach."""
  global _impls
  if _impls is None:
    from grain._src.core import tree_lib
    spec = importlib.util.spec_from_file_location("mc_pure_tree_lib", tree_lib.__file__)
    pure = importlib.util.module_from_spec(spec)
    sys.modules["mc_pure_tree_lib"] = pure
    hidden = {k: v for k, v in sys.modules.items() if k == "jax" or k.startswith("jax.")}
    for k in hidden:
      sys.modules[k] = None
    sys.modules["jax"] = None
    try:
      spec.loader.exec_module(pure)
    finally:
      del sys.modules["jax"]
      sys.modules.update(hidden)
    _impls = {"default": tree_lib, "pure": pure}
  return _impls


@contextlib.contextmanager
def using(name):
  """Everything that calls the tree library gets this implementation."""
  from grain._src.core import tree_lib
  old = dict(vars(tree_lib))
  if name == "pure":
    for k, v in vars(impls()["pure"]).items():
      if not k.startswith("__") and callable(v) and getattr(v, "__module__", "") == "mc_pure_tree_lib":
        setattr(tree_lib, k, v)
  try:
    yield
  finally:
    for k, v in old.items():
      setattr(tree_lib, k, v)


# --- one tree ----------------------------------------------------------------------


def fail(ctx, what):
  raise Violation(f"{ctx}: {what}")


def check_one(res, impl, lib, shape):
  t = build(shape, counter())
  want = leaves(t)
  ctx = f"{impl}: {t!r}"
  n = len(want)

  got = list(lib.flatten(t))
  if got != [x for _, x in want]:
    fail(ctx, f"flatten gives {got}, expected {[x for _, x in want]}")
  got = [(norm_path(p, t), x) for p, x in lib.flatten_with_path(t)]
  if got != want:
    fail(ctx, f"flatten_with_path gives {got}, expected {want}")
  for seq in ([f"l{i}" for i in range(n)], tuple(np.arange(n))):
    new = dict(zip([p for p, _ in want], seq))
    got = lib.unflatten_as(t, seq)
    exp = mapped(lambda p, x: new[p], t)
    if not eq(got, exp):
      fail(ctx, f"unflatten_as with {list(seq)} gives {got!r}, expected {exp!r}")
    if list(map(str, lib.flatten(got))) != list(map(str, seq)):
      fail(ctx, f"flatten after unflatten_as gives {lib.flatten(got)}, expected {list(seq)}")
  for m in {0, n - 1, n + 1, n + 2} - {n, -1}:
    try:
      got = lib.unflatten_as(t, list(range(m)))
    except Exception:  # pylint: disable=broad-except
      continue
    fail(ctx, f"unflatten_as accepts {m} leaves for {n} and gives {got!r}")

  got = lib.map_structure(lambda x: (x, "m"), t)
  exp = mapped(lambda p, x: (x, "m"), t)
  if not eq(got, exp):
    fail(ctx, f"map_structure gives {got!r}, expected {exp!r}")
  got = lib.map_structure_with_path(lambda p, x: f"{norm_path(p, t)}{x}", t)
  exp = mapped(lambda p, x: f"{p}{x}", t)
  if not eq(got, exp):
    fail(ctx, f"map_structure_with_path gives {got!r}, expected {exp!r}")
  for stop in (list, tuple, dict, (list, tuple)):
    got = lib.map_structure(repr, t, is_leaf=lambda x, stop=stop: isinstance(x, stop))
    exp = mapped(lambda p, x: repr(x), t, is_leaf=lambda x, stop=stop: isinstance(x, stop))
    if not eq(got, exp):
      fail(ctx, f"map_structure with {stop} as leaves gives {got!r}, expected {exp!r}")
  lib.assert_same_structure(t, t)
  if not eq(t, build(shape, counter())):
    fail(ctx, "was changed")
  res.executions += 1
  res.transitions += 14
  res.distinct += n > 1


# --- two trees ---------------------------------------------------------------------


def up_to(f, shallow, t):
  """None when unspecified, else what map_structure_up_to has to give."""
  if not isinstance(shallow, SEQ + MAP):
    return f(t)
  if isinstance(shallow, SEQ):
    if not isinstance(t, SEQ) or len(t) != len(shallow):
      raise Mismatch
  elif not isinstance(t, MAP) or not set(shallow) <= set(t):
    raise Mismatch
  return like(shallow, {k: up_to(f, c, t[k]) for k, c in kids(shallow)})


def outcome(f, *a):
  try:
    return "ok", f(*a)
  except Exception as e:  # pylint: disable=broad-except
    return "raises", f"{type(e).__name__}: {e}"


def check_two(res, impl, lib, a, b):
  ctx = f"{impl}: {a!r} and {b!r}"
  pair = lambda x, y: ("pair", x, repr(y))
  try:
    exp = mapped(lambda p, x, y: pair(x, y), a, b)
    match = True
  except Mismatch:
    exp, match = None, False
  free = match and not same_kinds(a, b)
  for what, got in (
      ("map_structure", outcome(lib.map_structure, pair, a, b)),
      ("map_structure_with_path", outcome(
          lib.map_structure_with_path, lambda p, x, y: pair(x, y), a, b))):
    if not match:
      if got[0] == "ok":
        fail(ctx, f"{what} maps trees that do not match to {got[1]!r}")
    elif got[0] == "raises":
      if not free:
        fail(ctx, f"{what} raises {got[1]}, expected {exp!r}")
    elif not eq(got[1], exp):
      fail(ctx, f"{what} gives {got[1]!r}, expected {exp!r}")

  # The same structure: each is a prefix of the other.
  try:
    mapped(lambda p, x, y: 0, b, a)
    same = match
  except Mismatch:
    same = False
  got = outcome(lib.assert_same_structure, a, b)
  if got[0] == "ok" and not same:
    fail(ctx, "assert_same_structure accepts different structures")
  if got[0] == "raises" and same and not free:
    fail(ctx, f"assert_same_structure refuses equal structures: {got[1]}")

  try:
    exp = up_to(repr, a, b)
  except Mismatch:
    pass
  else:
    got = outcome(lib.map_structure_up_to, a, repr, b)
    if got[0] == "raises" or not eq(got[1], exp):
      fail(ctx, f"map_structure_up_to {got[0]} {got[1]!r}, expected {exp!r}")
  res.executions += 1
  res.transitions += 4


# --- specs and sizes ---------------------------------------------------------------


@dataclasses.dataclass
class D:
  x: int
  y: np.ndarray


LEAVES = (3, 2.5, "", "ab", b"xyz", np.arange(3, dtype=np.int16), np.float32(1), True,
          np.zeros((2, 0), np.uint8), D(1, np.zeros(2, np.int8)), np.array("abc"))


def nbytes(t):
  return sum(len(x) if isinstance(x, (str, bytes)) else x.nbytes if isinstance(x, np.ndarray)
             else 0 for _, x in leaves(t))


def check_specs(res, shape, vals):
  t = build(shape, iter(vals).__next__)
  specs = {}
  for impl, lib in impls().items():
    got = lib.estimate_byte_size(t)
    if got != nbytes(t):
      fail(f"{impl}: {t!r}", f"estimate_byte_size gives {got}, expected {nbytes(t)}")
    specs[impl] = lib.spec_like(t)
  if not eq(specs["default"], specs["pure"]):
    fail(f"{t!r}", f"spec_like differs: {specs['default']!r} with jax, {specs['pure']!r} without")
  # Every feature is described, in its own place.
  leafy = lambda x: isinstance(x, SEQ) and all(isinstance(i, type(x[0])) for i in x)
  exp = mapped(lambda p, x: (str(x.dtype) if isinstance(x, np.ndarray) else type(x).__name__), t,
               is_leaf=leafy)
  for (p, s), (q, w) in itertools.zip_longest(leaves(specs["pure"]), leaves(exp), fillvalue=((), "")):
    if p != q or not str(s).startswith(w):
      fail(f"{t!r}", f"spec_like describes {q} ({w}) as {p}: {s}")
  res.executions += 1


# --- pipelines ---------------------------------------------------------------------


def feat(i, k):
  return {"a": np.arange(2) + 10 * i, "b": np.int64(1000 + i),
          "c": np.arange(3, dtype=np.int16) - 10 * i}[k]


ORDERS = {
    "ab": lambda f: {"a": f("a"), "b": f("b")},
    "ba": lambda f: {"b": f("b"), "a": f("a")},
    "od_ab": lambda f: collections.OrderedDict([("a", f("a")), ("b", f("b"))]),
    "od_ba": lambda f: collections.OrderedDict([("b", f("b")), ("a", f("a"))]),
    "deep_ba": lambda f: {"b": f("b"), "a": [{"c": f("c"), "a": f("a"), "b": None}, (f("b"),)]},
    "deep_ab": lambda f: {"a": [{"a": f("a"), "b": None, "c": f("c")}, (f("b"),)], "b": f("b")},
    "dd_ba": lambda f: collections.defaultdict(list, [("b", f("b")), ("a", f("a"))]),
    "dd_ab": lambda f: collections.defaultdict(list, [("a", f("a")), ("b", f("b"))]),
    "nt": lambda f: N2(f("a"), f("b")),
    "less": lambda f: {"a": f("a")},
    "more": lambda f: {"c": f("c"), "b": f("b"), "a": f("a")},
    "none": lambda f: {"b": None, "a": f("a")},
}
GROUP = {"ab": 0, "ba": 0, "od_ab": 1, "od_ba": 1, "deep_ba": 2, "deep_ab": 2, "dd_ab": 3,
         "dd_ba": 3, "nt": 4, "less": 5, "more": 6, "none": 7}


def stacked(ns, order):
  """The batch of the elements with these numbers."""
  return ORDERS[order](lambda k: np.stack([feat(i, k) for i in ns]))


def by_key(t):
  """Trees compared by key: kinds of containers of equal meaning do not matter."""
  if isinstance(t, MAP):
    return {k: by_key(v) for k, v in t.items()}
  if isinstance(t, SEQ):
    return [by_key(v) for v in t]
  if t is None:
    return "None"
  a = np.asarray(t)
  return (a.dtype.str, a.shape, a.tolist())


def check_chunks(ctx, want, mixed, refuse, run):
  """want: the batches; mixed: refusal is allowed; refuse: it is required."""
  kind, got = outcome(lambda: [by_key(x) for x in run()])
  if kind == "raises":
    if not (mixed or refuse):
      fail(ctx, f"raises {got}")
    return
  if refuse:
    fail(ctx, f"elements of different structures give {got}")
  exp = [by_key(x) for x in want()]
  if got != exp:
    fail(ctx, f"gives {got}, expected {exp}")


def matching(*ts):
  try:
    mapped(lambda p, *x: 0, *ts)
  except Mismatch:
    return False
  return True


def check_batches(res, impl, orders):
  from mc import catalog as cat
  import grain.python as gp
  from grain._src.python import data_loader, operations, record
  g = cat.g()
  n = len(orders)
  els = [ORDERS[o](lambda k, i=i: feat(i, k)) for i, o in enumerate(orders)]
  chunk = lambda size, drop=False: [list(range(s, min(s + size, n))) for s in range(0, n, size)
                                    if not drop or s + size <= n]
  # Pure and jax agree on these, others may be refused.
  groups = lambda ns: {GROUP[orders[i]] for i in ns}
  kinds = lambda ns: {orders[i] for i in ns}

  def flags(chunks):
    refuse = any(not matching(*[els[i] for i in c]) for c in chunks)
    mixed = any(len(groups(c)) > 1 or (len(kinds(c)) > 1 and groups(c) == {1}) for c in chunks)
    return mixed, refuse

  for size in (2, 3):
    for drop in (False, True):
      ch = chunk(size, drop)
      mixed, refuse = flags(ch)
      want = lambda: [stacked(c, orders[c[0]]) for c in ch]
      ctx = f"{impl}: batches of {size} of elements with keys {orders}"
      ds = lambda: g.MapDataset.source(els)
      check_chunks(ctx, want, mixed, refuse, lambda: list(ds().batch(size, drop_remainder=drop)))
      check_chunks(ctx + " (stream)", want, mixed, refuse,
                   lambda: list(ds().to_iter_dataset().batch(size, drop_remainder=drop)))
      op = operations.BatchOperation(batch_size=size, drop_remainder=drop)
      recs = lambda: iter([record.Record(record.RecordMetadata(index=i, record_key=i), e)
                           for i, e in enumerate(els)])
      check_chunks(ctx + " (operation)", want, mixed, refuse,
                   lambda: [r.data for r in op(recs())])
      # Through shared memory.
      from grain._src.python.ipc import shared_memory_array as sm

      def via_shm():
        out = []
        for b in ds().batch(size, drop_remainder=drop):
          out.append(sm.open_from_shm(sm.copy_to_shm(b)))
        return out
      check_chunks(ctx + " (shared memory)", want, mixed, refuse, via_shm)
      res.executions += 4
  # Padded batches.
  ch = chunk(2)
  mixed, refuse = flags(ch)

  def pads():
    return [ORDERS[orders[c[0]]](lambda k: np.concatenate(
        [np.stack([feat(i, k) for i in c])] +
        ([np.full_like(np.stack([feat(0, k)]), -1)] if len(c) < 2 else []))) for c in ch]
  from grain import experimental as ge
  check_chunks(f"{impl}: padded batches of elements with keys {orders}", pads, mixed, refuse,
               lambda: list(g.MapDataset.source(els).to_iter_dataset().batch(
                   2, batch_fn=lambda x: ge.batch_and_pad(x, batch_size=2, pad_value=-1))))
  # Rebatching of batches of two.
  srcs = [stacked([2 * i, 2 * i + 1], o) for i, o in enumerate(orders)]
  for size in (1, 3, 4):
    ch = [list(range(s, min(s + size, 2 * n))) for s in range(0, 2 * n, size)]
    owner = [sorted({i // 2 for i in c}) for c in ch]
    refuse = any(len({frozenset(p for p, _ in leaves(els[i])) for i in c}) > 1 for c in owner)
    # The structure of the first batch counts for all.
    alln = range(n)
    mixed = len(groups(alln)) > 1 or (len(kinds(alln)) > 1 and groups(alln) == {1})
    check_chunks(f"{impl}: batches of two with keys {orders} in batches of {size}",
                 lambda: [stacked(c, orders[0]) for c in ch], mixed, refuse,
                 lambda: list(ge.RebatchIterDataset(
                     g.MapDataset.source(srcs).to_iter_dataset(), size, drop_remainder=False)))
    res.executions += 1
  # Un-batching by flattening keeps names as well: zip and mix pass elements on.
  two = ge.ZipMapDataset([g.MapDataset.source(els), g.MapDataset.source(els[::-1])])
  got = [by_key(x) for x in two]
  exp = [by_key((a, b)) for a, b in zip(els, els[::-1])]
  if got != exp:
    fail(f"{impl}: zip of elements with keys {orders}", f"gives {got}, expected {exp}")
  # A data loader with batches.
  ch = chunk(2, True)
  mixed, refuse = flags(ch)

  def loader():
    return list(gp.DataLoader(
        data_source=els, worker_count=0, operations=[gp.Batch(2, drop_remainder=True)],
        sampler=gp.SequentialSampler(n, shard_options=gp.NoSharding())))
  check_chunks(f"{impl}: data loader over elements with keys {orders}",
               lambda: [stacked(c, orders[c[0]]) for c in ch], mixed, refuse, loader)
  res.executions += 3
  res.distinct += len(set(orders)) > 1


PACK = {
    "ab": lambda a, b: {"a": a, "b": b},
    "ba": lambda a, b: {"b": b, "a": a},
    "in_ab": lambda a, b: {"x": {"a": a, "b": b}, "m": 7},
    "in_ba": lambda a, b: {"m": 7, "x": {"b": b, "a": a}},
    "od_ba": lambda a, b: collections.OrderedDict([("b", b), ("a", a)]),
}


def pack_by_key(x, names):
  """(values, segments, positions) per feature, whatever the form of the output."""
  if isinstance(x, tuple):
    return tuple(pack_by_key(p, names) for p in x)
  return {str(k): pack_by_key(v, names) if isinstance(v, MAP) else np.asarray(v).tolist()
          for k, v in x.items()}


def check_packing(res, impl, algo, struct, orders, lens):
  """All orders of keys in elements and options pack as one fixed order does."""
  from mc import catalog as cat
  from grain import experimental as ge
  from grain._src.python import record
  from grain._src.python.experimental.example_packing import packing
  g = cat.g()

  def run(struct, orders):
    kw = {"meta_features": ("x",)} if struct.startswith("in_") else {}
    ls = PACK[struct](np.array(4), np.array(3))
    lstruct = {k: ({i: int(j) for i, j in v.items()} if isinstance(v, dict) else int(v))
               for k, v in ls.items() if k != "m"}
    els = [PACK[o](np.arange(n) + 10 * (i + 1), np.arange(m) + 100 * (i + 1))
           for i, (o, (n, m)) in enumerate(zip(orders, lens))]
    src = g.MapDataset.source(els).to_iter_dataset()
    if algo == "operation":
      op = packing.PackAndBatchOperation(batch_size=2, length_struct=lstruct)
      recs = iter([record.Record(record.RecordMetadata(index=i, record_key=i), e)
                   for i, e in enumerate(els)])
      return [pack_by_key(r.data, lstruct) for r in op(recs)]
    if algo == "cts":
      ds = ge.ConcatThenSplitIterDataset(src, length_struct=lstruct)
    elif algo == "ffd":
      ds = ge.FirstFitPackIterDataset(src, length_struct=lstruct, num_packing_bins=2, **kw)
    else:
      ds = ge.BestFitPackIterDataset(src, length_struct=lstruct, num_packing_bins=2, **kw)
    return [pack_by_key(x, lstruct) for x in ds]
  deep = struct.startswith("in_")
  base = "in_ab" if deep else "ab"
  want = run(base, [base] * len(orders))
  kind, got = outcome(run, struct, orders)
  ctx = f"{impl}: packing ({algo}) with lengths as {struct} of elements as {orders} of {lens}"
  odd = "od_ba" in orders
  if kind == "raises":
    if not odd:
      fail(ctx, f"raises {got}")
  elif got != want:
    fail(ctx, f"gives {got}, expected {want}")
  res.executions += 1
  res.distinct += 1


# --- cases -------------------------------------------------------------------------


def cases(tier):
  q = tier == "quick"
  out = []
  for impl in ("default", "pure"):
    parts = 6 if q else 24
    out += [(f"trees/{impl}/{j}", "trees", impl, 4 if q else 5, j, parts) for j in range(parts)]
    parts = 10 if q else 48
    out += [(f"pairs/{impl}/{j}", "pairs", impl, ((3, 3, False),) if q else ((3, 3, False), (2, 4, True)), j, parts)
            for j in range(parts)]
    pool = [o for o in ORDERS]
    reps = list(itertools.product(pool, repeat=2)) + [
        o for o in itertools.product(pool, repeat=3)
        if not q or len({GROUP[x] for x in o}) == 1] + [(o,) for o in pool]
    # Mapping a leaf together with None is up to the function mapped.
    reps = [r for r in reps if "none" not in r or set(r) == {"none"}]
    parts = 4 if q else 12
    out += [(f"batches/{impl}/{j}", "batches", impl, reps[j::parts]) for j in range(parts)]
    lens = [((1, 1), (2, 1), (3, 2)), ((2, 2), (2, 1), (1, 0)), ((4, 3), (0, 1), (1, 2))]
    reps = []
    for algo in ("ffd", "bfd", "cts", "operation"):
      flat = ("ab", "ba", "od_ba")
      for s in ("ab", "ba"):
        for o in itertools.product(flat, repeat=3):
          reps += [(algo, s, o, l) for l in (lens if not q else lens[:2])]
      if algo in ("ffd", "bfd"):
        for s in ("in_ab", "in_ba"):
          for o in itertools.product(("in_ab", "in_ba"), repeat=3):
            reps += [(algo, s, o, l) for l in (lens if not q else lens[:2])]
    parts = 3
    out += [(f"packing/{impl}/{j}", "packing", impl, reps[j::parts]) for j in range(parts)]
  out += [(f"specs/{j}", "specs", 3 if q else 4, j, 4) for j in range(4)]
  return out


def explore(res, name, kind, *args):
  try:
    _explore(res, kind, *args)
  except (Violation, Hang):
    raise
  except Exception as e:  # pylint: disable=broad-except
    tb = "".join(traceback.format_exc().splitlines(True)[-14:])
    raise Violation(f"{kind}: raises {type(e).__name__}: {e}\n{tb}") from e


def _explore(res, kind, *args):
  if kind == "trees":
    impl, top, j, parts = args
    lib = impls()[impl]
    for i, s in enumerate(s for n in range(1, top + 1) for s in shapes(n)):
      if i % parts == j:
        check_one(res, impl, lib, s)
  elif kind == "pairs":
    impl, bounds, j, parts = args
    lib = impls()[impl]
    for top, big, swap in bounds:
      small = [s for n in range(1, top + 1) for s in shapes(n)]
      bs = [build(s, counter(100)) for n in range(1, big + 1) for s in shapes(n)]
      for i, s in enumerate(bs):
        if i % parts != j:
          continue
        for t in small:
          a = build(t, counter())
          check_two(res, impl, lib, a, s)
          if swap:
            check_two(res, impl, lib, s, a)
    res.distinct += res.executions
  elif kind == "batches":
    impl, reps = args
    with using(impl):
      for r in reps:
        with hang_guard(60):
          check_batches(res, impl, r)
  elif kind == "packing":
    impl, reps = args
    with using(impl):
      for r in reps:
        with hang_guard(60):
          check_packing(res, impl, *r)
  else:
    top, j, parts = args
    i = 0
    for n in range(1, top + 1):
      for s in shapes(n):
        i += 1
        if i % parts != j:
          continue
        c = counter()
        k = len(leaves(build(s, c)))
        if k <= 2:
          for v in itertools.product(LEAVES, repeat=k):
            check_specs(res, s, v)
  res.states += res.executions
  res.samples.append(f"{kind}: {str(args)[:120]}")
