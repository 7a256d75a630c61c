"""All short operation histories of iterators that read ahead.

Threads and worker processes are the real code as simulated tasks under the default
schedule (what schedules can do to one stage is S01..S03's); here the read-ahead
stages stand in pipelines, between other transformations, and *every* meaningful
history over the operations up to a length is executed from the start.
"""
import itertools
import json

from mc import catalog as cat
from mc import hist
from mc import pipes
from mc import shm
from mc import simrun
from mc import vals
from mc.report import Hang, Violation, hang_guard

# n next, s save, r restore in place, R restore fresh, J restore fresh from JSON,
# j restore in place from JSON, e read to the end, p start prefetching,
# i0..i3 set the index, I2 set the index of a fresh iterator, g read the index


def read_ahead():
  """Stages that read ahead."""
  from grain._src.python.dataset.transformations import prefetch
  g = cat.g()
  e = g.experimental
  thread = lambda n: lambda d: e.ThreadPrefetchIterDataset(d, prefetch_buffer_size=n)
  mp = lambda w, b: lambda d: d.mp_prefetch(
      g.MultiprocessingOptions(num_workers=w, per_worker_buffer_size=b))
  return {
      "": lambda d: d,
      "thread1": thread(1), "thread3": thread(3),
      "thread1thread2": lambda d: thread(2)(thread(1)(d)),
      "mp1": mp(1, 1), "mp1b3": mp(1, 3), "mp2": mp(2, 1),
      "threadmp1": lambda d: thread(1)(mp(1, 1)(d)),
      "threads2": lambda d: prefetch.multithread_prefetch(d, 2, 1),
      "ileave": lambda d: e.InterleaveIterDataset(
          [d, cat.src(2, 70), cat.gen_src(1, 80)], cycle_length=2, iter_buffer_size=1),
  }


def sources():
  g = cat.g()
  M = g.MapDataset
  return {
      "src": cat.src,
      "ahead": lambda n: M.source(list(range(n))).to_iter_dataset(cat.ro(2, 2)),
      "aheadf": lambda n: M.source(list(range(n + n // 2 + 1))).filter(
          cat.f_mod3).to_iter_dataset(cat.ro(1, 3)),
      "aheadrep": lambda n: M.source(list(range(n))).shuffle(seed=5).repeat(2)
                  .random_map(cat.m_rand, seed=3).to_iter_dataset(cat.ro(2, 1)),
  }


def build(p, extra=None):
  s, n, below, ahead, above = p
  t = {**pipes.all_transforms(), **(extra or {})}
  d = sources()[s](n)
  for c in below:
    d = t[c][0](d)
  d = read_ahead()[ahead](d)
  for c in above:
    d = t[c][0](d)
  return d


def label(p):
  s, n, below, ahead, above = p
  return ">".join([f"{s}({n})", *below, *([ahead] if ahead else []), *above])


def words(ops, length):
  """Every history up to the length in which each operation can matter."""
  back = ("r", "R", "J", "j")
  for k in range(1, length + 1):
    for w in itertools.product(ops, repeat=k):
      # What follows every history is reading to the end, and a restore.
      if w[-1] in ("n", "s", "e") and k > 1 and w[-1] != "s":
        continue
      ok, saved, ended = True, False, False
      for i, o in enumerate(w):
        if o in back:
          ok &= saved
          ended = False
        elif o == "s":
          ok &= i == 0 or w[i - 1] != "s"
          saved = True
        elif o == "e":
          ok &= not ended
          ended = True
        elif o[0] in "iI":
          ended = False
        elif o == "n":
          # Reading on after the end, once.
          ok &= not ended or w[i - 1] == "e"
        elif o in "pg":
          ok &= i == 0 or w[i - 1] != o
      if ok:
        yield w


def run_word(ds, want, w, last):
  """Executes one history, and then the last restore."""
  it = iter(ds)
  pos = 0
  saved = None
  done = []

  def get():
    nonlocal pos
    try:
      x = vals.norm(next(it))
    except StopIteration:
      x = hist.STOP
    exp = want[pos] if pos < len(want) else hist.STOP
    if x != exp:
      raise Violation(f"history {' '.join(w)}, after {' '.join(done)}: element {pos} is"
                      f" {str(x)[:300]}, uninterrupted it is {str(exp)[:300]}")
    if x != hist.STOP:
      pos += 1
    return x

  def step(o):
    nonlocal it, pos, saved
    if o == "n":
      get()
    elif o == "e":
      while get() != hist.STOP:
        pass
    elif o == "s":
      st = it.get_state()
      saved = (st, hist.plain(st), pos)
    elif o in "rj":
      it.set_state(saved[0] if o == "r" else json.loads(json.dumps(saved[1])))
      pos = saved[2]
    elif o in "RJ":
      it.close()
      it = iter(ds)
      it.set_state(saved[0] if o == "R" else json.loads(json.dumps(saved[1])))
      pos = saved[2]
    elif o == "p":
      it.start_prefetch()
    elif o[0] == "i":
      it._set_next_index(int(o[1:]))
      pos = int(o[1:])
    elif o[0] == "I":
      it.close()
      it = iter(ds)
      it._set_next_index(int(o[1:]))
      pos = int(o[1:])
    elif o == "g":
      i = it._get_next_index()
      if i != pos:
        raise Violation(f"history {' '.join(w)}, after {' '.join(done)}: the reported index"
                        f" is {i}, {pos} elements were consumed")
    else:
      raise AssertionError(o)
    done.append(o)
    if saved and not hist.same_state(saved[0], saved[1]):
      raise Violation(f"history {' '.join(w)}, after {' '.join(done)}: the saved state"
                      f" {saved[1]} has changed to {saved[0]}")
  try:
    for o in w:
      step(o)
    step("e")
    if saved and last:
      step(last)
      step("e")
    elif last == "g":
      step("g")
  finally:
    it.close()
  return len(done)


def explore(res, p, ops, length, last, extra=None):
  ws = list(words(ops, length))
  now = [None]

  want = None

  def run(ws):
    nonlocal want
    ds = build(p, extra)
    if want is None:
      it = iter(ds)
      want = hist.run_to_end(it, 60)
      it.close()
      if want and want[-1] == "<more>":
        raise Violation(f"{label(p)}: the pipeline does not end: {want}")
    for w in ws:
      now[0] = w
      if any(o[0] in "iI" and int(o[1:]) > len(want) for o in w):
        continue
      res.transitions += run_word(ds, want, w, last)
      res.executions += 1
    now[0] = None
  try:
    with hang_guard(120):
      # A few at a time, each with datasets of its own.
      k = 12 if p[3] in HEAVY else 52
      for i in range(0, len(ws), k):
        shm.reset()
        simrun.call(lambda: run(ws[i:i + k]))
    res.states += 1
    res.distinct += 1
  except Violation as e:
    res.violation(label(p), f"{label(p)}: {e}", {"pipeline": label(p), "history": now[0]})
  except Hang as e:
    res.violation(label(p), f"{label(p)}: history {now[0]} does not terminate: {e}",
                  {"pipeline": label(p), "history": now[0]})
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    tb = "".join(traceback.format_exc().splitlines(True)[-14:])
    res.violation(label(p), f"{label(p)}: history {now[0]} raises {type(e).__name__}: {e}\n{tb}",
                  {"pipeline": label(p), "history": now[0]})


HEAVY = ("mp1", "mp1b3", "mp2", "threadmp1", "threads2")


def pipelines(tier, short):
  """Every read-ahead stage alone, and with one transformation below or above."""
  kinds = [k for k in read_ahead() if k]
  q = tier == "quick"
  for s in sources():
    for n in (0, 1, 3) if q else range(5):
      yield s, n, (), "", ()
      for k in kinds:
        if not q or k not in HEAVY or n == 3:
          yield s, n, (), k, ()
  for i, k in enumerate(kinds + [""]):
    s = "src" if k else "ahead"
    for j, c in enumerate(short):
      if not pipes.well_formed((c,)):
        continue
      # The slow ones share the transformations among them.
      if not q or k not in HEAVY or (i + j) % len(HEAVY) == 0:
        yield s, 3, (), k, (c,)
      if k and (not q or k not in HEAVY or (i + j + 2) % len(HEAVY) == 0):
        yield s, 3, (c,), k, ()
  if not q:
    for k in kinds:
      for a in short[::2]:
        for b in short[1::2]:
          if pipes.well_formed((a, b)):
            yield "src", 3, (a,), k, (b,)


def length(p, most):
  """Shorter histories of long pipelines, and of the slow stages."""
  return most - (p[3] in HEAVY or len(p[2]) + len(p[4]) > 0 or p[1] < 3)


def cases(tier, short, only=lambda p: True):
  ps = [p for p in dict.fromkeys(pipelines(tier, short)) if only(p)]
  k = 48 if tier == "quick" else 384
  return [(f"live{i}", [("live", p) for p in ps[i::k]]) for i in range(k)]


def explore_all(res, ps, tier, ops, last, extra=None, most=4):
  for _, p in ps:
    explore(res, p, ops, length(p, most if tier == "quick" else most + 1), last, extra)
