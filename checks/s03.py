"""S03: multi-process prefetch is lossless and never hangs under any schedule."""
import itertools

from checks import s01
from mc import cli
from mc import hist
from mc import lines
from mc import sched
from mc import simmp
from mc import vals
from mc.report import Violation

LEVEL = "model_checking"
TECHNIQUE = ("controlled scheduler over the real process prefetch code, its worker function"
             " and the standard library's queues, with simulated processes: all schedules"
             " and worker deaths up to a deviation bound, for all operation sequences")
RULE = ("one execution = one schedule of one operation sequence on the real iterator and"
        " worker code, compared step by step with the same pipeline without prefetch")

pre_boot = simmp.install


def step(f):
  try:
    return ("value", vals.norm(f()))
  except StopIteration:
    return ("stop",)
  except ValueError as e:
    return ("error", str(e))
  except RuntimeError as e:
    if "terminated unexpectedly" in str(e):
      return ("died",)
    raise


def body(make, make_ref, word, tail=True):
  def run(e):
    it, ref = make(), make_ref()
    saved = None
    done = ""
    lost = []
    ended = [False]   # an error ends the iteration until the position is set

    def nxt():
      if ended[0]:
        a = step(lambda: next(it))
        if a == ("died",):
          lost.append(done)
        elif a != ("stop",):
          raise Violation(f"operations {word}, after {done!r}: next after an error gives {a}")
        return ("stop",)
      good = ref.get_state()
      a = both(next, "next")
      if a[0] == "error":
        ended[0] = True
        ref.set_state(good)
      return a

    def both(f, what):
      a = step(lambda: f(it))
      if a == ("died",):
        if not e.crashed:
          raise Violation(f"operations {word}, after {done!r}: {what} reports a dead worker,"
                          " but none died")
        lost.append(done)
        return a
      b = step(lambda: f(ref))
      if a != b:
        raise Violation(f"operations {word}, after {done!r}: {what} gives {a},"
                        f" without prefetch {b}")
      return a

    try:
      for op in word:
        if op == "n":
          nxt()
        elif op == "s":
          st = it.get_state()
          saved = (st, hist.plain(st), ref.get_state())
        elif op == "r":
          it.set_state(saved[0])
          ref.set_state(saved[2])
        elif op == "R":
          it.close()
          it, ref = make(), make_ref()
          it.set_state(saved[1])
          ref.set_state(saved[2])
        elif op == "i":
          it._set_next_index(2)
          ref._set_next_index(2)
        elif op == "g":
          both(lambda x: x._get_next_index(), "the index")
        elif op == "p":
          it.start_prefetch()
        if op in "rRi":
          ended[0] = False
        done += op
        if lost:
          return
      for _ in range(6):
        x = nxt()
        if lost:
          return
        done += "."
        if x[0] in ("stop", "error"):
          break
      if saved and not hist.same_state(saved[0], saved[1]):
        raise Violation(f"operations {word}: the saved state {saved[1]} changed to {saved[0]}")
      if e.crashed:
        return
    finally:
      if not e.killing:
        it.close()
    e.drain()
    left = [u.name for u in e.alive() if u.proc]
    if left:
      raise Violation(f"operations {word}: closed, but {left} still run")
  return run


FATAL = {"exit": ("died",), "set_state": ("error", "cannot be restored"),
         "set_index": ("error", "cannot be moved"), "get_state": ("error", "cannot be saved"),
         "iter": ("error", "no iterator")}


def fatal_body(make, how, word):
  """The worker fails for good: reported once, not after its place; nothing hangs."""
  def run(e):
    it = make()
    pos, failed, bad, done, st = 0, False, how == "iter", "", {"i": 0}
    ever = bad
    try:
      for op in word + "nnn":
        if op == "n":
          a = step(lambda: next(it))
          if failed:
            want = ("stop",)
          elif bad or (how == "exit" and pos == 1) or how == "get_state":
            want = FATAL[how]
            failed = True
          elif pos == 3:
            want = ("stop",)
          else:
            want = ("value", vals.norm(100 + pos))
            pos += 1
          if not failed and a == FATAL[how] and (ever or how in ("exit", "get_state")):
            # The worker, which reads ahead, may have failed before its place.
            failed = True
          elif a != want:
            raise Violation(f"worker fails in {how}, operations {word}, after {done!r}:"
                            f" next gives {a}, expected {want}")
        elif op == "r":
          it.set_state(dict(st))
          pos, failed, bad = 0, False, how in ("iter", "set_state")
          ever |= bad
        elif op == "i":
          it._set_next_index(2)
          pos, failed, bad = 2, False, how in ("iter", "set_index")
          ever |= bad
        elif op == "p":
          it.start_prefetch()
        done += op
    finally:
      if not e.killing:
        it.close()
    e.drain()
    left = [u.name for u in e.alive() if u.proc]
    if left:
      raise Violation(f"worker fails in {how}, operations {word}: closed, but {left} still run")
  return run


def words(n):
  for w in s01.words(n):
    yield w


def scenarios(tier):
  """(name, kind, buffer, word, options)."""
  q = tier == "quick"
  L, S = dict(mode="line"), dict(mode="sync")
  for w in ("sr" + "r" * 7, "snpr" + "r" * 7, "i" + "s" + "ri" * 4):
    yield f"plain/buf1/{w}", "plain", 1, w, dict(S, budget=1)
  for how in FATAL:
    for n in range(3 if q else 4):
      for w in itertools.product("nrip", repeat=n):
        w = "".join(w)
        if "pp" in w or "i" in w and how in ("iter", "exit"):
          continue
        yield f"fatal-{how}/buf1/{w}", how, 1, w, dict(S, budget=1 if n > 1 and q else 2)
        if n < 2 or not q:
          yield f"fatal-{how}/buf1/{w}/line", how, 1, w, dict(L, budget=1, timeouts=True)
  for w in words(3 if q else 4):
    n = len(w)
    yield f"plain/buf1/{w}", "plain", 1, w, dict(L, budget=1)
    if n < 3 or not q:
      yield f"plain/buf2/{w}", "plain", 2, w, dict(L, budget=1)
      yield f"plain/buf1/{w}/sync2", "plain", 1, w, dict(S, budget=2)
      yield f"error/buf1/{w}", "error", 1, w, dict(L, budget=1)
      yield f"early/buf1/{w}", "plain", 1, w, dict(L, budget=1, timeouts=True)
      yield f"crash/buf1/{w}", "plain", 1, w, dict(L, budget=1, crash=True)
      yield f"keep/buf1/{w}", "keep", 1, w, dict(L, budget=1)
    if not q and n < 3:
      yield f"plain/buf1/{w}/line2", "plain", 1, w, dict(L, budget=2)
      yield f"crash/buf1/{w}/sync2", "plain", 1, w, dict(S, budget=2, crash=True)


def cases(tier):
  sc = list(scenarios(tier))
  k = 64 if tier == "quick" else 512
  return [(f"chunk{i}", sc[i::k]) for i in range(k)]


def makers(kind, buf):
  from grain._src.python.dataset.transformations import process_prefetch as pp
  L = lines.classes()["LineDataset"]
  fail = (1,) if kind == "error" else ()
  d = pp.ProcessPrefetchIterDataset(L(3, fail, how=kind if kind in FATAL else None),
                                    buffer_size=buf)
  r = L(3, fail)

  def make():
    it = iter(d)
    if kind == "keep":
      it.set_keep_workers_after_stop_iteration(True)
    return it
  return make, (lambda: iter(r))


def explore(res, name, scs):
  from grain._src.python.dataset.transformations import process_prefetch as pp
  from grain._src.python.ipc import queue as gq
  sched.watch(pp, gq, *lines.files())
  for nm, kind, buf, word, kw in scs:
    if cli.skip(nm):
      continue
    make, ref = makers(kind, buf)
    b = fatal_body(make, kind, word) if kind in FATAL else body(make, ref, word)
    sched.explore(res, nm, b, free=False, setup=simmp.reset,
                  proc_globals=simmp.settings(), **kw)
