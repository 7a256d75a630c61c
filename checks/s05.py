"""S05: closing a pipeline stops everything it started, once and for all."""
import itertools
import os
import struct
import tempfile
import time

from mc import catalog as cat
from mc import cli
from mc import lines
from mc import pipes
from mc import sched
from mc import simmp
from mc.report import Violation

LEVEL = "model_checking"
TECHNIQUE = ("controlled scheduler over the real iterators, executors, threads and simulated"
             " worker processes: close after every short operation sequence, under all"
             " schedules up to a deviation bound")
RULE = ("one execution = one schedule of one operation sequence ending in close; afterwards"
        " no task of the pipeline may live, every source iterator is closed, and next raises")

pre_boot = simmp.install


def words(ops, length):
  for n in range(length + 1):
    for w in itertools.product(ops, repeat=n):
      w = "".join(w)
      if "pp" in w or "ss" in w or w.endswith("s"):
        continue
      if "r" in w and "s" not in w[:w.index("r")]:
        continue
      if "s" in w and "r" not in w[w.rindex("s"):]:
        continue
      yield w


def body(make, word, sure=True):
  from mc import linecls

  def run(e):
    linecls.CREATED.clear()
    it = make()
    saved = None
    for op in word:
      if op in "nN":
        for _ in range(1 if op == "n" else 30):
          try:
            next(it)
          except StopIteration:
            break
          except ValueError as x:
            if "element" not in str(x):
              raise
      elif op == "s":
        saved = it.get_state()
      elif op == "r":
        it.set_state(saved)
      elif op == "p":
        it.start_prefetch()
    it.close()

    def check(when):
      e.drain()
      left = [u.name for u in e.alive() if not u.name.startswith("pool")]
      # Feeder threads of queues end with their queue.
      left = [n for n in left if not n.startswith("QueueFeeder")]
      if left:
        raise Violation(f"operations {word!r}: {when} {left} still live")
      n = len(linecls.open_iterators())
      if n:
        raise Violation(f"operations {word!r}: {when} {n} of {len(linecls.CREATED)}"
                        " source iterators are open")
    check("closed, but")
    for i in range(2):
      try:
        v = next(it)
      except ValueError:
        pass
      except StopIteration:
        if sure:
          raise Violation(f"operations {word!r}: next after close ends the iteration"
                          " instead of raising ValueError") from None
      else:
        raise Violation(f"operations {word!r}: next after close yields {v}")
      check("closed and advanced, but")
      it.close()
    check("closed again, but")
    if e.errors:
      raise Violation(f"operations {word!r}: a background task failed: {e.errors[0]}")
  return run


def pipelines():
  """name -> (build, words alphabet)."""
  g = cat.g()
  e = g.experimental
  L = lines.classes()["LineDataset"]
  from grain._src.python.dataset.transformations import prefetch as pf
  from grain._src.python.dataset.transformations import process_prefetch as pp
  from grain._src.python.dataset import elastic_iterator as ei
  T = lambda d, b=1: e.ThreadPrefetchIterDataset(d, prefetch_buffer_size=b)
  P = lambda d, b=1: pp.ProcessPrefetchIterDataset(d, buffer_size=b)
  I = lambda ds, c, **k: e.InterleaveIterDataset(ds, cycle_length=c, **k)
  R = lambda d, n=2: e.RepeatIterDataset(d, n)
  M = lambda n, t=1, b=1: g.MapDataset.range(n).map(lines.slow_map).to_iter_dataset(cat.ro(t, b))
  sh = g.sharding.ShardOptions(shard_index=0, shard_count=1)
  light = {
      "thread": lambda: iter(T(L(3))),
      "thread-buf2": lambda: iter(T(L(3), 2)),
      "thread-buf0": lambda: iter(T(L(3), 0)),
      "thread-error": lambda: iter(T(L(3, fail=(1,)))),
      "thread-thread": lambda: iter(T(T(L(3)).map(lines.slow_map))),
      "thread-repeat": lambda: iter(R(T(L(2)))),
      "read": lambda: iter(M(3)),
      "read-2": lambda: iter(M(4, 2, 2)),
      "read-thread": lambda: iter(T(M(3))),
      "mix": lambda: iter(g.IterDataset.mix([T(L(2)), T(L(2))], [1, 1])),
      "zip": lambda: iter(e.ZipIterDataset([T(L(2)), T(L(3))], strict=False)),
      "batch": lambda: iter(T(L(3)).batch(2)),
      "elastic-map": lambda: ei.ElasticIterator(
          g.MapDataset.range(4), 2, sh, read_options=cat.ro(1, 1)),
  }
  heavy = {
      "inter": lambda: iter(I([L(1), L(2), L(1)], 2)),
      "inter-1": lambda: iter(I([L(1), L(1)], 1, make_iter_buffer_size=2)),
      "inter-buf0": lambda: iter(I([L(1), L(2), L(1)], 2, iter_buffer_size=0)),
      "inter-repeat": lambda: iter(R(I([L(1), L(1)], 2))),
      "inter-repeat-1": lambda: iter(R(I([L(1), L(1)], 1))),
      "inter-map": lambda: iter(I([g.MapDataset.range(2), g.MapDataset.range(1)], 2)),
      "inter-limit": lambda: iter(e.LimitIterDataset(I([L(2), L(2)], 2), 1)),
      "threads": lambda: iter(pf.multithread_prefetch(L(4), 2, 1)),
      "elastic": lambda: ei.ElasticIterator(
          I([L(2), L(2)], 2), 2, sh, read_options=cat.ro(1, 1)),
      "process": lambda: iter(P(L(2))),
      "process-repeat": lambda: iter(R(P(L(1)))),
      "process-thread": lambda: iter(T(P(L(2)))),
  }
  huge = {
      "processes": lambda: iter(pp.multiprocess_prefetch(L(3), 2)),
      "processes-repeat": lambda: iter(R(pp.multiprocess_prefetch(L(2), 2))),
      "elastic-mp": lambda: ei.ElasticIterator(
          g.MapDataset.range(4), 2, sh, read_options=cat.ro(1, 1),
          multiprocessing_options=g.MultiprocessingOptions(num_workers=1)),
  }
  return light, heavy, huge


NAMES = None


def scenarios(tier):
  """(name, pipeline, word, options)."""
  q = tier == "quick"
  light, heavy, huge = pipelines()
  L, S = dict(mode="line"), dict(mode="sync")
  for p in light:
    for w in words("nNspr", 3 if q else 4):
      n = len(w)
      if "p" in w and p not in ("thread", "thread-buf2", "read", "read-2", "thread-thread"):
        continue
      yield f"{p}/{w}", p, w, dict(L, budget=1)
      if n < 2 or not q:
        yield f"{p}/{w}/sync2", p, w, dict(S, budget=2)
  for p in heavy:
    for w in words("nNsr", 3 if q else 4):
      n = len(w)
      yield f"{p}/{w}", p, w, dict(S, budget=1 if n < 3 or not q else 0)
      if (n < 2 or not q) and n < 3:
        yield f"{p}/{w}/line", p, w, dict(L, budget=1)
  for p in huge:
    for w in words("nNsr", 3 if q else 4):
      yield f"{p}/{w}", p, w, dict(S, budget=0 if q and len(w) > 1 else 1)


def cases(tier):
  sc = list(scenarios(tier))
  k = 64 if tier == "quick" else 512
  out = [(f"chunk{i}", sc[i::k]) for i in range(k)]
  # Every single-process pipeline of the catalogue, closed at every position.
  cat_ps = []
  for s in FILES:
    cat_ps += [(s, ()), (s, ("options",)), (s, ("cache",))]
  for c in pipes.names():
    if pipes.well_formed((c,)):
      cat_ps.append(("src", (c,)))
  for c in pipes.names():
    if c.startswith("rebatch"):
      cat_ps.append(("src", ("batch2", c)))
    for d in pipes.names():
      if pipes.well_formed((c, d)) and (tier != "quick" or d in (
          "flatmap", "cache", "repeat2", "mix", "zip", "limit3", "ffd", "cts", "wshuffle",
          "batch2")):
        cat_ps.append(("src", (c, d)))
  out += [(f"catalogue{i}", cat_ps[i::32]) for i in range(32)]
  return out


def explore(res, name, scs):
  from grain._src.python.dataset import elastic_iterator as ei
  from grain._src.python.dataset import dataset as gd
  from grain._src.python.dataset.transformations import interleave
  from grain._src.python.dataset.transformations import prefetch as pf
  from grain._src.python.dataset.transformations import process_prefetch as pp
  from grain._src.python.ipc import queue as gq
  if name.startswith("catalogue"):
    return catalogue(res, scs)
  sched.watch(pf, pp, gq, ei, interleave, *lines.files())
  light, heavy, huge = pipelines()
  all_p = {**light, **heavy, **huge}
  for nm, p, word, kw in scs:
    if cli.skip(nm):
      continue
    sched.explore(res, nm, body(all_p[p], word), free=False, setup=simmp.reset,
                  proc_globals=simmp.settings(), **kw)


def catalogue(res, ps):
  """close at every position of an uninterrupted and of a restored run."""
  for s, chain in ps:
    label = f"{s}/{'+'.join(chain)}"
    if cli.skip(label):
      continue
    for k in range(40):
      for restored in (False, True):
        ds = build(s, chain)
        it = iter(ds)
        ended = False
        for i in range(k):
          try:
            next(it)
          except StopIteration:
            ended = True
        if restored:
          st = it.get_state()
          it.close()
          it = iter(ds)
          it.set_state(st)
        its = tree(it)
        it.close()
        res.executions += 1
        res.distinct += 1
        res.states += 1
        for n in range(2):
          opened = [x for x in its if not x._closed]
          if opened:
            res.violation(f"{label} open", f"{label}: closed after {k} elements, but"
                          f" {opened[0]} is open", {"case": label})
          try:
            v = next(it)
          except ValueError:
            pass
          except StopIteration:
            res.violation(f"{label} end", f"{label}: next after closing at position {k}"
                          " ends instead of raising ValueError", {"case": label})
          else:
            res.violation(f"{label} yields", f"{label}: next after closing at position {k}"
                          f" (restored: {restored}) yields {v}", {"case": label})
          res.transitions += 1
          it.close()
        if s in FILES:
          # A file may be being opened ahead in a background thread right now.
          for wait in range(200):
            left = [f for f in open_files() if "/mc-s05-" in f]
            if not left:
              break
            time.sleep(0.01)
          if left:
            res.violation(f"{label} file", f"{label}: closed after {k} elements, but the file"
                          f" {left[0].rsplit('.')[-1]} is still open", {"case": label})
      if ended:
        break


FILES = ("tfrecord", "parquet", "parquet2")
_dir = None


def open_files():
  out = []
  for f in os.listdir("/proc/self/fd"):
    try:
      out.append(os.readlink(f"/proc/self/fd/{f}"))
    except OSError:
      pass
  return out


def build(s, chain):
  global _dir
  if s not in FILES:
    return pipes.build(s, 4, chain)
  e = cat.g().experimental
  if _dir is None:
    _dir = tempfile.TemporaryDirectory(prefix="mc-s05-")
    with open(_dir.name + "/r.tfrecord", "wb") as f:
      for i in range(3):
        f.write(struct.pack("<QI", 4, 0) + b"%04d" % i + struct.pack("<I", 0))
    import pyarrow as pa
    import pyarrow.parquet as pq
    for i in range(2):
      pq.write_table(pa.table({"a": list(range(3))}), _dir.name + f"/{i}.parquet",
                     row_group_size=2)
  p = _dir.name
  if s == "tfrecord":
    d = e.TFRecordIterDataset(p + "/r.tfrecord")
  elif s == "parquet":
    d = e.ParquetIterDataset(p + "/0.parquet")
  else:
    d = e.ParquetIterDataset([p + "/0.parquet", p + "/1.parquet"])
  t = pipes.all_transforms()
  for c in chain:
    d = t[c][0](d)
  return d


def tree(it):
  out = [it]
  for p in it._parents:
    out += tree(p)
  return out
