"""I15: arrays cross process boundaries through shared memory unchanged."""
import itertools
import pickle

from mc import catalog as cat
from mc import report
from mc import shm
from mc import simrun
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of derivations (views, transposes, copies, pickling,"
             " being handed over) of real shared memory arrays, every state handed over and"
             " compared with plain arrays; exhaustive enumeration of batches and of pipelines"
             " with simulated worker processes")
RULE = ("states = layouts (block size, offset, strides, shape, dtype, contents, ownership)"
        " reached by derivations; in each of them the array is handed over through the real"
        " copy_to_shm/open_from_shm and pickled, and compared in shape, dtype and bytes; all"
        " combinations of element dtypes and shapes in a batch, with and without shared memory")
ASSUMPTIONS = ("shared memory blocks are simulated by anonymous memory with the same interface",
               "worker processes run under the default schedule (all schedules: S03, S06)")

pre_boot = simrun.install


def dtypes():
  import numpy as np
  return ["i8", "i1", "f4", "f2", "?", "c8", "M8[s]", "U3", "S2", ">i4", "U0", "O",
          np.dtype([("a", "i2"), ("b", "f4")])]


def content(shape, dt, k=1):
  import math
  import numpy as np
  n = math.prod(shape)
  dt = np.dtype(dt)
  if dt.names:
    a = np.zeros(n, dt)
    for j, f in enumerate(dt.names):
      a[f] = np.arange(n) * (j + 1) + k
  elif dt.kind in "US":
    a = np.array([("x" * (i % 4) + str(i + k))[:max(dt.itemsize // (4 if dt.kind == "U" else 1), 0)]
                  for i in range(n)], dtype=dt)
  elif dt.kind == "O":
    a = np.empty(n, object)
    for i in range(n):
      a[i] = i + k
  elif dt.kind == "?" or dt.kind == "b":
    a = (np.arange(n) + k) % 2 == 0
  else:
    a = (np.arange(n) + k).astype(dt)
  return a.reshape(shape)


def roots(name):
  """name -> pair (array, equal plain array)."""
  from grain._src.python.ipc import shared_memory_array as sma
  import numpy as np
  kind, shape, dt = name
  plain = content(shape, dt)
  if kind == "plain":
    return plain.copy(), plain
  if kind == "fortran":
    return np.asfortranarray(plain), np.asfortranarray(plain)
  if kind == "masked":
    m = np.ma.MaskedArray(plain.copy(), mask=(np.arange(plain.size) % 2 == 0).reshape(shape))
    return m, m.copy()
  a = sma.SharedMemoryArray(shape, np.dtype(dt))
  a[...] = plain
  if kind == "opened":
    a = hand(a)
  return a, plain


def hand(x, min_size=0):
  from grain._src.python.ipc import shared_memory_array as sma
  m = pickle.loads(pickle.dumps(sma.copy_to_shm({"k": (x, 1)}, min_size=min_size)))
  y = sma.open_from_shm(m)["k"][0]
  if isinstance(y, sma.SharedMemoryArray):
    # It may be handed on: this process is not the last one to use the block.
    y._unlink_on_del = False  # pylint: disable=protected-access
  return y


def hand_big(x):
  return hand(x, 17)


def ops():
  import copy
  import numpy as np
  isarr = lambda x: isinstance(x, np.ndarray)
  d = {
      "tail": lambda x: x[1:],
      "head": lambda x: x[:-1],
      "step": lambda x: x[::2],
      "flip": lambda x: x[::-1],
      "lastdim": lambda x: x[..., 1:],
      "colflip": lambda x: x[..., ::-1],
      "row": lambda x: x[0],
      "T": lambda x: x.T,
      "ravel": lambda x: x.ravel(),
      "reshape": lambda x: x.reshape((2, -1)),
      "new": lambda x: x[None],
      "squeeze": lambda x: x.squeeze(),
      "copy": lambda x: x.copy(),
      "fcopy": lambda x: x.copy(order="F"),
      "take": lambda x: x[[-1, 0]],
      "i1": lambda x: x.view("i1") if not x.dtype.hasobject else x,
      "asarray": lambda x: np.asarray(x),
      "bcast": lambda x: np.broadcast_to(x, (2, *x.shape)),
      "deepcopy": copy.deepcopy,
      "pickle": lambda x: pickle.loads(pickle.dumps(x)),
      "pickle2": lambda x: pickle.loads(pickle.dumps(x, 2)),
      "hand": hand,
      "field": lambda x: x["b"] if x.dtype.names else x,
      "where": lambda x: x[x == x],
      "zero": lambda x: x[:0],
      "swap": lambda x: x.swapaxes(0, -1),
  }
  return d


IDENT = {"deepcopy", "pickle", "pickle2", "hand", "asarray"}


def same(a, b):
  import numpy as np
  if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
    return type(a) is type(b) and np.asarray(a).tobytes() == np.asarray(b).tobytes()
  # Pickling a numpy array gives it the native byte order.
  if a.shape != b.shape or native(a.dtype) != native(b.dtype):
    return False
  if a.dtype.hasobject:
    return str(a.tolist()) == str(b.tolist())
  if isinstance(b, np.ma.MaskedArray):
    return (isinstance(a, np.ma.MaskedArray)
            and np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
            and np.array_equal(a.filled(0), b.filled(0)))
  return a.astype(native(a.dtype)).tobytes() == b.astype(native(b.dtype)).tobytes()


def native(dt):
  return dt.newbyteorder("=")


def show(a):
  return f"{getattr(a, 'dtype', '')}{getattr(a, 'shape', '')} {a!r}"[:200]


def form(x):
  """What decides how the array behaves."""
  import mmap
  import numpy as np
  chain = []
  b = x
  while isinstance(b, np.ndarray):
    chain.append(type(b).__name__)
    last = b
    b = b.base
  own = type(b).__name__
  h = getattr(x, "shm", None)
  if last.size and x.size:
    off = x.__array_interface__["data"][0] - last.__array_interface__["data"][0]
  else:
    off = 0
  return (tuple(dict.fromkeys(chain)), own, h is not None, h is not None and h.size,
          h is not None and h.closed, off, x.shape, x.strides, str(x.dtype),
          x.tobytes() if not x.dtype.hasobject else str(x.tolist()), x.flags.writeable,
          getattr(x, "_unlink_on_del", None))


def walk(name, word):
  table = ops()
  a, p = roots(name)
  for w in word:
    q = p if w in IDENT else table[w](p)
    try:
      a = table[w](a)
    except ValueError:
      if w == "i1":  # depends on the layout, which may change
        return None
      raise
    if w in IDENT:
      q = q.astype(a.dtype) if native(a.dtype) == native(q.dtype) else q
    p = q
  return a, p


def derive(res, name, tier, root):
  import numpy as np
  depth, cap = (4, 700) if tier == "quick" else (7, 6000)
  table = ops()
  seen = set()
  front = [()]
  level = 0
  n = 0
  while front and level <= depth:
    nxt = []
    for word in front:
      shm.reset()
      try:
        both = walk(root, word)
      except Exception as e:  # pylint: disable=broad-except
        raise Violation(f"{root} {' '.join(word)} raises {type(e).__name__}: {e}") from e
      if both is None:
        continue
      a, p = both
      if not isinstance(a, np.ndarray):
        if not same(a, p):
          raise Violation(f"{root} {' '.join(word)} is {show(a)} instead of {show(p)}")
        continue
      masked = isinstance(a, np.ma.MaskedArray)
      f = word if masked else form(a)
      if f in seen:
        continue
      seen.add(f)
      n += 1
      res.states += 1
      res.executions += 1
      for how, fn in (("as it is", lambda x: x), ("handed over", hand),
                      ("handed over above a minimum size", hand_big),
                      ("pickled", lambda x: pickle.loads(pickle.dumps(x, 5)))):
        try:
          b = fn(a)
        except Exception as e:  # pylint: disable=broad-except
          raise Violation(f"{root} {' '.join(word)} {how} raises {type(e).__name__}: {e}") from e
        if not same(b, p):
          raise Violation(f"{root} {' '.join(word)} {how} is {show(b)} instead of {show(p)}")
        if not same(a, p):
          raise Violation(f"{root} {' '.join(word)} changed to {show(a)} from {show(p)}"
                          f" by being {how}")
      if p.ndim < 4 and p.size < 40 and not masked:
        for w in table:
          try:
            if w not in IDENT:
              table[w](p)
          except (IndexError, ValueError, TypeError):
            continue
          res.transitions += 1
          nxt.append((*word, w))
      if n >= cap:
        res.extra["capped"] = res.extra.get("capped", 0) + 1
        nxt = []
        front = []
        break
    front = nxt
    level += 1
  res.extra["fixpoint_roots"] = res.extra.get("fixpoint_roots", 0) + (not front and n < cap)
  res.distinct += 1


def all_roots(tier):
  out = []
  shapes = [(), (1,), (3,), (2, 3), (2, 0)]
  if tier != "quick":
    shapes += [(2, 1, 2), (2, 2, 3), (0,)]
  for d in dtypes():
    dt = d if isinstance(d, str) else "struct"
    for s in shapes:
      for k in ("plain", "shm", "opened", "fortran"):
        import math
        if k in ("shm", "opened") and (math.prod(s) == 0 or dt in ("U0", "O")):
          continue
        if k == "fortran" and len(s) < 2:
          continue
        if tier == "quick" and s == (2, 3) and dt not in ("i8", "i1", "struct", "U3", ">i4"):
          continue
        out.append((k, s, d))
  out.append(("masked", (3,), "i8"))
  out.append(("masked", (2, 3), "f4"))
  return out


# --- batches


def elements():
  import numpy as np
  out = {}
  for d in dtypes():
    nm = d if isinstance(d, str) else "struct"
    out[nm] = content((2,), d, 3)
  out["i4"] = content((2,), "i4", 5)
  out["i8big"] = content((2,), "i8", 2**40)
  out["f8"] = content((2,), "f8", 0) + 0.5
  out["U7"] = content((2,), "U7", 1000)
  out["S5"] = content((2,), "S5", 1000)
  out["int"] = 5
  out["float"] = 2.5
  out["bool"] = True
  out["str"] = "ab"
  out["longstr"] = "abcdef"
  out["npint"] = np.int16(7)
  out["npfloat"] = np.float64(7.25)
  out["d3"] = content((3,), "i8")
  out["d1"] = content((1,), "i8")
  out["scalar"] = content((), "i8")
  out["row"] = content((2, 2), "i8")
  out["strided"] = content((2, 2), "i8").T[0]
  out["fort"] = content((2, 2), "i8").T
  out["empty"] = content((0,), "f4")
  out["zero2"] = content((0, 2), "i8")
  out["dict"] = {"a": content((2,), "i4"), "b": (1, content((0,), "i4"))}
  out["dict2"] = {"a": content((2,), "i8", 2**40), "b": (2.5, content((0,), "i4"))}
  out["other"] = {"a": content((2,), "i8", 2**40)}
  return out


def tree_same(a, b):
  import numpy as np
  if isinstance(b, dict):
    return isinstance(a, dict) and a.keys() == b.keys() and all(tree_same(a[k], b[k]) for k in b)
  if isinstance(b, (tuple, list)):
    return (isinstance(a, (tuple, list)) and len(a) == len(b)
            and all(tree_same(x, y) for x, y in zip(a, b)))
  return same(np.asarray(a) if isinstance(a, np.ndarray) else a, b)


def attempt(f):
  try:
    return True, f()
  except Exception as e:  # pylint: disable=broad-except
    return False, f"{type(e).__name__}: {str(e)[:200]}"


def batches(res, name, words):
  from grain._src.python import data_loader
  from grain._src.python import operations
  from grain._src.python import record
  from grain._src.python.dataset.transformations import batch
  from grain._src.python.ipc import shared_memory_array as sma
  import numpy as np
  batch._PARALLEL_BATCHING_MIN_TOTAL_BYTES = 1  # pylint: disable=protected-access
  over = lambda x: sma.open_from_shm(pickle.loads(pickle.dumps(sma.copy_to_shm(x))))
  par = batch._MakeBatchParallel()  # pylint: disable=protected-access
  parshm = batch._MakeBatchParallel()  # pylint: disable=protected-access
  parshm.enable_shared_memory_output()
  parshm2 = pickle.loads(pickle.dumps(parshm))

  def legacy(use_shm):
    def f(xs):
      op = operations.BatchOperation(batch_size=len(xs))
      op.disable_deprecation_message()
      if use_shm:
        op._enable_shared_memory()  # pylint: disable=protected-access
      recs = iter([record.Record(record.RecordMetadata(i, i), x) for i, x in enumerate(xs)])
      return next(op(recs)).data
    return f
  for word in words:
    shm.reset()
    el = elements()
    xs = [el[w] for w in word]
    text = f"batch of {', '.join(word)}"
    want = attempt(lambda: batch.make_batch(xs))
    if len(xs) > 1 and want[0] and not isinstance(xs[0], dict):
      if not same(want[1], np.stack([np.asarray(x) for x in xs])):
        raise Violation(f"{text} is {want[1]!r}")
    for how, f, w in (
        ("in shared memory", lambda: batch.make_batch(xs, output_to_shared_memory=True), want),
        ("in shared memory, handed over",
         lambda: over(batch.make_batch(xs, output_to_shared_memory=True)), want),
        ("handed over", lambda: over(batch.make_batch(xs)), want),
        ("stacked in parallel", lambda: par(xs), None),
        ("stacked in parallel in shared memory", lambda: parshm(xs), None),
        ("stacked in parallel in shared memory by a copy, handed over",
         lambda: over(parshm2(xs)), None),
        ("stacked by the legacy operation in shared memory",
         lambda: sma.open_from_shm(legacy(True)(xs)), 0),
        ("copied to shared memory by the legacy map",
         lambda: sma.open_from_shm(data_loader.CopyNumPyArrayToSharedMemory().map(
             batch.make_batch(xs))), want),
    ):
      if w is None:
        w = want if len(xs) > 1 else attempt(
            lambda: cat.tmap(lambda v: np.stack([v]), xs[0]))
      if w == 0:
        w = attempt(lambda: legacy(False)(xs))
      got = attempt(f)
      res.transitions += 1
      if got[0] != w[0] or (w[0] and not tree_same(got[1], w[1])):
        res.violation(f"{text} {how}", f"{text}: {how} it is {got[1]!r}, otherwise {w[1]!r}",
                      {"case": name, "elements": list(word), "how": how})
    res.executions += 1
    res.states += 1
    res.distinct += 1


def batch_words(tier):
  el = list(elements())
  out = [(a,) for a in el] + list(itertools.product(el, repeat=2))
  small = ["i8", "i4", "i8big", "f8", "U3", "U7", "int", "float", "str", "d1", "O", "empty",
           "dict", "dict2"] if tier == "quick" else el
  out += list(itertools.product(small, repeat=3))
  return out


# --- pipelines


@cat.Fn
def tolist(xs):
  import numpy as np
  return np.stack([np.asarray(x) for x in xs]).T


def pipe_words(tier):
  from itertools import product
  ks = ["i8", "f8", "U3", "U7", "float", "int", "empty", "struct", ">i4", "O", "fort", "U0",
        "dict", "bool"]
  out = []
  for a in ks:
    for b in ks:
      if (a == "dict") != (b == "dict"):
        continue
      for bs in (None, 1, 2, "fn", "mapbatch") if tier != "quick" else (None, 2, "mapbatch"):
        for w in (1, 2):
          if tier == "quick" and a != b and w == 1 and bs is None:
            continue
          out.append((a, b, bs, w))
  return out


class Pick:
  def __init__(self, a, b):
    self.ab = (a, b)

  def __call__(self, i):
    x = elements()[self.ab[i % 3 == 1]]
    return x


def pipeline(res, c):
  import grain
  import numpy as np
  a, b, bs, w = c

  def build():
    m = grain.MapDataset.range(5).map(Pick(a, b))
    if bs == "mapbatch":
      m = m.batch(2)
    d = m.to_iter_dataset(cat.ro())
    if bs == "fn":
      return d.batch(2, batch_fn=tolist)
    return d.batch(bs) if bs in (1, 2) else d

  def collect(d):
    out = []
    for x in d:
      out.append(cat_copy(x))
    return out
  want = []
  ok = True
  for i in range(w):  # what each worker delivers
    part = (grain.MapDataset.range(5)[i::w]).map(Pick(a, b))
    if bs == "mapbatch":  # a range is split above the batches
      part = grain.MapDataset.range(5).map(Pick(a, b)).batch(2)[i::w]
    part = part.to_iter_dataset(cat.ro())
    if bs == "fn":
      part = part.batch(2, batch_fn=tolist)
    elif bs in (1, 2):
      part = part.batch(bs)
    r = attempt(lambda p=part: collect(p))
    ok = ok and r[0]
    want.append(r[1])
  if ok:
    want = cat.interleave_model([list(x) for x in want], w)
  got = attempt(lambda: simrun.call(lambda: collect(
      build().mp_prefetch(grain.MultiprocessingOptions(num_workers=w)))))
  res.executions += 1
  if got[0] != ok or (ok and not (len(got[1]) == len(want) and all(
      tree_same(x, y) for x, y in zip(got[1], want)))):
    raise Violation(f"with worker processes {got[1]!r}, without {want!r}")


def cat_copy(x):
  import numpy as np
  if isinstance(x, dict):
    return {k: cat_copy(v) for k, v in x.items()}
  if isinstance(x, (tuple, list)):
    return type(x)(cat_copy(v) for v in x)
  return np.array(x) if isinstance(x, np.ndarray) else x


def cases(tier):
  out = [(f"derive {k} {s} {d}", tier, (k, s, d)) for k, s, d in all_roots(tier)]
  out.sort(key=lambda c: -len(c[2][1]))
  out += [(*c[:1], "batch", c[1]) for c in report.chunked(
      batch_words(tier), 48 if tier == "quick" else 128, "batches")]
  out += [(*c[:1], "pipe", c[1]) for c in report.chunked(pipe_words(tier), 64, "pipelines")]
  return out


def explore(res, name, kind, arg):
  shm.install()
  if kind == "batch":
    batches(res, name, arg)
  elif kind == "pipe":
    for c in arg:
      shm.reset()
      lab = f"pipeline of {c[0]} and {c[1]}, batch {c[2]}, {c[3]} workers"
      try:
        with hang_guard(60):
          pipeline(res, c)
          res.states += 1
          res.distinct += 1
      except Violation as e:
        res.violation(lab, f"{lab}: {e}", {"case": name})
      except Hang as e:
        res.violation(lab, f"{lab}: does not terminate: {e}", {"case": name})
  else:
    derive(res, name, kind, arg)
    res.samples.append(f"{name}: {res.states} layouts")
