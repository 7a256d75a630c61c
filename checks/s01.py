"""S01: background-thread prefetch is invisible under every thread schedule."""
import itertools

from mc import cli
from mc import hist
from mc import lines
from mc import sched
from mc import vals
from mc.report import Violation

LEVEL = "model_checking"
TECHNIQUE = ("controlled scheduler over the real prefetch code: all schedules up to a"
             " deviation bound for all operation sequences up to a length")
RULE = ("one execution = one schedule of one operation sequence on the real iterator,"
        " compared step by step with the same pipeline without prefetch")


def pre_boot():
  sched.install()


def watch():
  from grain._src.python.dataset.transformations import prefetch
  sched.watch(prefetch, *lines.files())


OPS = "nsrRigp"


def words(length):
  for n in range(1, length + 1):
    for w in itertools.product(OPS, repeat=n):
      w = "".join(w)
      # A restore needs a save; a save without a later restore shows nothing; a
      # word that ends in operations without effect is covered by its prefix.
      if ("r" in w or "R" in w) and (
          "s" not in w or min(i for i, c in enumerate(w) if c in "rR") < w.index("s")):
        continue
      if "s" in w and not ("r" in w[w.rindex("s"):] or "R" in w[w.rindex("s"):]):
        continue
      if "ss" in w or "gg" in w or "pp" in w or "ii" in w:
        continue
      if n > 1 and w[-1] in "p":
        continue
      yield w


def step(f):
  try:
    return ("value", vals.norm(f()))
  except StopIteration:
    return ("stop",)
  except ValueError as e:
    return ("error", str(e))


def body(make, make_ref, word, log):
  """make() gives the prefetching iterator, make_ref() the plain one."""
  def run(e):
    log.clear()
    it, ref = make(), make_ref()
    saved = None
    done = ""

    def both(f, what):
      a, b = step(lambda: f(it)), step(lambda: f(ref))
      if a != b:
        raise Violation(f"operations {word}, after {done!r}: {what} gives {a},"
                        f" without prefetch {b}")
      return a

    try:
      for op in word:
        if op == "n":
          both(next, "next")
        elif op == "s":
          st = it.get_state()
          saved = (st, hist.plain(st), ref.get_state())
        elif op == "r":
          it.set_state(saved[0])
          ref.set_state(saved[2])
        elif op == "R":
          it.close()
          it, ref = make(), make_ref()
          it.set_state(saved[1])
          ref.set_state(saved[2])
        elif op == "i":
          it._set_next_index(2)
          ref._set_next_index(2)
        elif op == "g":
          both(lambda x: x._get_next_index(), "the index")
        elif op == "p":
          it.start_prefetch()
        done += op
      # To the end, and once more.
      left = 0
      for _ in range(12):
        x = both(next, "next")
        done += "."
        if x == ("stop",):
          left += 1
          if left == 2:
            break
      if saved and not hist.same_state(saved[0], saved[1]):
        raise Violation(f"operations {word}: the saved state {saved[1]} changed to {saved[0]}")
    finally:
      if not e.killing:
        it.close()
    if log:
      raise Violation(f"operations {word}: {log[0]}")
  return run


def scenarios(tier):
  """(name, kind, buffer, word, budget, mode)."""
  q = tier == "quick"
  for w in words(4 if q else 5):
    n = len(w)
    yield f"plain/buf1/{w}", "plain", 1, w, 1, "line"
    if n < 4:
      yield f"plain/buf2/{w}", "plain", 2, w, 1, "line"
      yield f"plain/buf1/{w}/sync", "plain", 1, w, 2, "sync"
      yield f"early/buf1/{w}", "early", 1, w, 1, "line"
    if n < 4 and not q:
      yield f"plain/buf1/{w}/two", "plain", 1, w, 2, "line"
      yield f"plain/buf2/{w}/sync", "plain", 2, w, 3, "sync"
  for w in words(3 if q else 4):
    if "i" in w or "g" in w:
      continue
    yield f"error/buf1/{w}", "error", 1, w, 1, "line"
  for w in words(2 if q else 3):
    yield f"stacked/buf1/{w}", "stacked", 1, w, 1, "line"
    if not q:
      yield f"stacked/buf1/{w}/sync", "stacked", 1, w, 2, "sync"


def cases(tier):
  sc = list(scenarios(tier))
  k = 64 if tier == "quick" else 512
  return [(f"chunk{i}", sc[i::k]) for i in range(k)]


def makers(kind, buf):
  g = lines.cat.g()
  e = g.experimental
  log = []
  L = lines.classes()["LineDataset"]
  if kind in ("plain", "early"):
    d = L(3, log=log)
    r = L(3)
  elif kind == "error":
    d = L(3, fail=(1,), log=log)
    r = L(3, fail=(1,))
  elif kind == "stacked":
    d = e.ThreadPrefetchIterDataset(L(3, log=log), prefetch_buffer_size=1).map(lines.slow_map)
    r = L(3).map(lines.slow_map)
  p = e.ThreadPrefetchIterDataset(d, prefetch_buffer_size=buf)
  return (lambda: iter(p)), (lambda: iter(r)), log


def explore(res, name, scs):
  watch()
  for s in scs:
    nm, kind, buf, word, budget, mode = s
    if cli.skip(nm):
      continue
    make, ref, log = makers(kind, buf)
    for _ in range(1):
      sched.explore(res, nm, body(make, ref, word, log), budget=budget, mode=mode,
                    timeouts=kind == "early", free=kind != "stacked")
