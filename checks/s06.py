"""S06: shared memory blocks are released exactly once and never while still readable."""
import gc
import itertools

from checks import s05
from mc import catalog as cat
from mc import cli
from mc import hist
from mc import lines
from mc import sched
from mc import shm
from mc import simmp
from mc.report import Violation

LEVEL = "model_checking"
TECHNIQUE = ("controlled scheduler over the real shared memory arrays, their deletion pool and"
             " process prefetch with simulated workers: all schedules and all points of"
             " garbage collection up to a deviation bound, with every block accounted for")
RULE = ("one execution = one schedule of one sequence of operations; afterwards every block"
        " was unlinked exactly once, and none while an array in it was in use")

pre_boot = simmp.install


def setup():
  simmp.reset()
  shm.reset()


def arr(i, n=4):
  import numpy as np
  return np.full((n,), 7 * i + 1, dtype=np.int64)


# --- arrays handed over and dropped by several threads


def readable(a, want, what):
  import numpy as np
  b = a
  while b is not None:
    h = getattr(b, "shm", None)
    if h is not None and h.closed:
      raise Violation(f"{what} while its memory was already closed")
    b = b.base if isinstance(b, np.ndarray) else None
  if not np.array_equal(a, want):
    raise Violation(f"{what} is {a}, expected {want}")


def client(e, sma, word, opened, garbage):
  """One thread's operations on its own arrays."""
  held = []
  for op in word:
    if op == "o":    # receives the next array
      i, meta = opened.pop()
      a = sma.open_from_shm({"a": [meta]})["a"][0]
      held.append((i, a, arr(i)))
      del a
    elif op == "v":  # keeps only a view
      i, a, w = held.pop()
      held.append((i, a[1:3][::-1], w[1:3][::-1]))
      del a
    elif op == "x":  # keeps only a plain numpy view
      import numpy as np
      i, a, w = held.pop()
      held.append((i, np.asarray(a).reshape(2, 2), w.reshape(2, 2)))
      del a
    elif op == "d":
      held.pop(0)
    elif op == "u":  # throws the next array away unopened
      i, meta = opened.pop()
      sma.unlink_shm([meta])
    elif op == "e":
      sma.SharedMemoryArray.enable_async_del(1, 1)
    elif op == "g":  # the next array becomes cyclic garbage
      garbage.append(held.pop(0)[1])
    for i, a, w in held:
      readable(a, w, f"array {i}, read")
    if held:
      del a
  held.clear()


def arrays(words, limit, threads):
  from grain._src.python.ipc import shared_memory_array as sma

  def run(e):
    garbage = []
    if e.collect:
      e.garbage = garbage
    if limit:
      sma.SharedMemoryArray.enable_async_del(threads, limit)
    n = sum(w.count("o") + w.count("u") for w in words)
    with sched.no_points():
      opened = [(i, sma.copy_to_shm(arr(i))) for i in range(n)]
      e.drain()
    import threading
    ts = [threading.Thread(target=client, args=(e, sma, w, opened, garbage))
          for w in words[1:]]
    for t in ts:
      t.start()
    client(e, sma, words[0], opened, garbage)
    for t in ts:
      t.join()
    garbage.clear()
    e.drain()
    errs = shm.BOOK.block_errors()
    if errs:
      raise Violation(f"{words}: {errs[0]}")
    if e.errors:
      raise Violation(f"{words}: a thread failed: {e.errors[0]}")
    pools = [u for u in e.tasks if u.name.startswith("pool")]
    pool = (getattr(e, "pools", None) or [None])[-1]
    if limit:
      if len(pools) != threads:
        raise Violation(f"{words}: {len(pools)} deletion threads instead of {threads}")
      if pool.maxlen > max(limit, threads):
        raise Violation(f"{words}: {pool.maxlen} deletions waited at once, the limit is {limit}")
      # Every permit must have come back: as many deletions may wait as at the start.
      with sched.no_points():
        metas = [sma.copy_to_shm(arr(i)) for i in range(limit + 2)]
        e.drain()
        more = [sma.open_from_shm(m) for m in metas]
        pool.maxlen = 0
        more.clear()
      if pool.maxlen != max(limit, threads):
        raise Violation(f"{words}: afterwards {pool.maxlen} deletions wait at once instead of"
                        f" {max(limit, threads)}")
      e.drain()
      errs = shm.BOOK.block_errors()
      if errs:
        raise Violation(f"{words}: {errs[0]}")
    elif any("e" in w for w in words) and len(pools) != 1:
      raise Violation(f"{words}: {len(pools)} deletion threads instead of one")
  return run


# --- pipelines


@cat.Fn
def to_struct(x):
  import numpy as np
  return {"a": np.full((4,), x, dtype=np.int64), "b": x, "c": [np.full((2, 2), x, dtype=float)]}


@cat.Fn
def to_uneven(x):
  import numpy as np
  return {"a": np.full((4,), x, dtype=np.int64), "b": np.zeros((3 if x == 101 else 2,))}


def pipelines():
  from grain._src.python.dataset.transformations import prefetch as pf
  from grain._src.python.dataset.transformations import process_prefetch as pp
  e = cat.g().experimental
  L = lines.classes()["LineDataset"]
  P = lambda d, b=1: pp.ProcessPrefetchIterDataset(d, buffer_size=b)
  D = lambda n, **k: L(n, **k).map(to_struct)
  light = {
      "process": lambda: iter(P(D(3))),
      "process-buf2": lambda: iter(P(D(3), 2)),
      "process-batch": lambda: iter(P(D(4).batch(2))),
      "process-error": lambda: iter(P(D(3, fail=(1,)))),
      "process-repeat": lambda: iter(e.RepeatIterDataset(P(D(2)), 2)),
      "process-shm": lambda: iter(P(shared(D(4).batch(2)))),
      "process-shm-error": lambda: iter(P(shared(L(4).map(to_uneven).batch(2)))),
  }
  heavy = {
      "process-thread": lambda: iter(e.ThreadPrefetchIterDataset(
          P(D(3)), prefetch_buffer_size=1)),
      "processes": lambda: iter(pp.multiprocess_prefetch(D(4), 2)),
      "processes-batch": lambda: iter(pp.multiprocess_prefetch(D(4).batch(2), 2)),
  }
  return light, heavy


def shared(d):
  d.enable_shared_memory_output()
  return d


def leaves(x):
  import numpy as np
  if isinstance(x, dict):
    return [l for k in x for l in leaves(x[k])]
  if isinstance(x, list):
    return [l for v in x for l in leaves(v)]
  return [x] if isinstance(x, np.ndarray) else []


def body(make, word):
  import numpy as np

  def run(e):
    it = make()
    saved = None
    held = []

    def check(what):
      for l, w in held:
        readable(l, w, f"operations {word!r}: {what}: an array the consumer holds")
    for k, op in enumerate(word):
      if op in "nN":
        for _ in range(1 if op == "n" else 30):
          try:
            x = next(it)
          except StopIteration:
            break
          except ValueError as err:
            if "element" not in str(err):
              raise
            break
          for l in leaves(x):
            w = np.array(l)
            if w.size and not (w.flat[0] < 200):
              raise Violation(f"operations {word!r}: element {x}")
            held.append((l, w))
            del l
          del x
      elif op == "s":
        saved = it.get_state()
      elif op == "r":
        it.set_state(saved)
      elif op == "d":
        held[:len(held) // 2] = []
      check(f"after {word[:k + 1]!r}")
    it.close()
    check("after close")
    del it
    e.drain()
    check("after the end")
    held.clear()
    gc.collect()
    e.drain()
    gc.collect()
    errs = shm.BOOK.block_errors()
    if errs:
      raise Violation(f"operations {word!r}: {errs[0]} (of {len(shm.BOOK.blocks)})")
    if e.errors:
      raise Violation(f"operations {word!r}: a background task failed: {e.errors[0]}")
  return run


def words(n):
  for w in s05.words("nNsrd", n):
    if "d" in w and not set("nN") & set(w[:w.index("d")]) or "dd" in w:
      continue
    yield w


def scenarios(tier):
  """(name, kind, arguments, options)."""
  q = tier == "quick"
  L, S = dict(mode="line"), dict(mode="sync")
  cw = ["od", "ovd", "oxd", "u", "ood", "oodd", "oodod", "eod", "odeod", "oeod"]
  for a, b in itertools.combinations_with_replacement(cw, 2):
    for limit, threads in ((0, 0), (1, 1), (2, 1), (2, 2), (1, 2)):
      if limit and ("e" in a or "e" in b):
        continue
      if not limit and "e" not in a and "e" not in b and len(a + b) > 5:
        continue
      yield f"arrays/{a},{b}/{limit},{threads}", "arrays", ((a, b), limit, threads), dict(
          L, budget=2 if not q or len(a + b) < 6 else 1)
  for a, b, c in itertools.combinations_with_replacement(cw[:5], 3):
    yield f"arrays/{a},{b},{c}/1,1", "arrays", ((a, b, c), 1, 1), dict(
        L, budget=1 if q else 2)
  for a, b in itertools.product(("ogod", "oogd", "ooggod"), ("", "od")):
    for limit in (1, 2, 3):
      yield (f"collect/{a},{b}/{limit}", "collect", ((a, b), limit, 1),
             dict(L, budget=1 if q else 2))
  for p in LIGHT:
    for w in [*words(3 if q else 4), "nsrn", "snrN", "nsrnsrn", "nsrdn"]:
      yield f"{p}/{w}", "pipeline", (p, w), dict(S, budget=1)
      if len(w) < 2 or not q:
        yield f"{p}/{w}/line", "pipeline", (p, w), dict(L, budget=1)
  for p in HEAVY:
    for w in words(3):
      yield f"{p}/{w}", "pipeline", (p, w), dict(S, budget=1 if len(w) < 2 or not q else 0)


LIGHT = ("process", "process-buf2", "process-batch", "process-error", "process-repeat",
         "process-shm", "process-shm-error")
HEAVY = ("process-thread", "processes", "processes-batch")


def cases(tier):
  sc = list(scenarios(tier))
  k = 64 if tier == "quick" else 512
  return [(f"chunk{i}", sc[i::k]) for i in range(k)]


def explore(res, name, scs):
  from grain._src.python.dataset.transformations import process_prefetch as pp
  from grain._src.python.ipc import queue as gq
  from grain._src.python.ipc import shared_memory_array as sma
  import threading
  shm.install()
  light, heavy = pipelines()
  all_p = {**light, **heavy}
  last = None
  for nm, kind, args, kw in sorted(scs, key=lambda s: s[1]):
    if cli.skip(nm):
      continue
    # What is watched decides the points at which a thread can be preempted.
    if kind != last:
      last = kind
      sched._FILES.clear()
      if kind == "pipeline":
        sched.watch(pp, gq, sma, *lines.files())
      else:
        sched.watch(sma, *([threading] if kind == "collect" else []))
    if kind == "pipeline":
      b = body(all_p[args[0]], args[1])
    else:
      b = arrays(*args)
    sched.explore(res, nm, b, free=False, setup=setup,
                  collect=kind == "collect",
                  proc_globals=simmp.settings(), **kw)
