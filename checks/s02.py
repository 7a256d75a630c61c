"""S02: parallel reads keep order, content and position for any schedule."""
import itertools

from checks import s01
from mc import catalog as cat
from mc import cli
from mc import lines
from mc import sched
from mc import vals
from mc.report import Violation

LEVEL = "model_checking"
TECHNIQUE = ("controlled scheduler over the real parallel reader: all schedules up to a"
             " deviation bound for all operation sequences up to a length")
RULE = ("one execution = one schedule of one operation sequence on the real iterator"
        " with read threads, compared step by step with sequential reading")

pre_boot = sched.install
step = s01.step


def watch():
  from grain._src.python.dataset.transformations import prefetch
  sched.watch(prefetch, *lines.files())


def resize_words(length):
  for n in range(2, length + 1):
    for w in itertools.product("nsrBbtT", repeat=n):
      w = "".join(w)
      if not set(w) & set("BbtT") or ("r" in w and "s" not in w[:w.index("r")]):
        continue
      if "s" in w and "r" not in w[w.rindex("s"):]:
        continue
      if any(2 * c in w for c in "sBbtT"):
        continue
      yield w


def body(make, make_ref, word):
  base = {"b": ("_set_prefetch_buffer_size", 2), "B": ("_set_prefetch_buffer_size", 0),
          "t": ("_set_num_threads", 0), "T": ("_set_num_threads", 2)}

  def run(e):
    it, ref = make(), make_ref()
    saved = None
    done = ""

    def both(f, what):
      a, b = step(lambda: f(it)), step(lambda: f(ref))
      if a != b:
        raise Violation(f"operations {word}, after {done!r}: {what} gives {a},"
                        f" sequential reading {b}")
      return a

    try:
      for op in word:
        if op == "n":
          both(next, "next")
        elif op == "s":
          saved = (it.get_state(), ref.get_state())
          if saved[0] != saved[1]:
            raise Violation(f"operations {word}, after {done!r}: state {saved[0]},"
                            f" sequential reading {saved[1]}")
        elif op == "r":
          both(lambda x: x.set_state(saved[0]), "restore")
        elif op == "R":
          it.close()
          it, ref = make(), make_ref()
          both(lambda x: x.set_state(saved[0]), "restore")
        elif op == "i":
          both(lambda x: x._set_next_index(2), "set index")
        elif op == "g":
          both(lambda x: x._get_next_index(), "index")
        elif op == "p":
          it.start_prefetch()
        else:
          getattr(it, base[op][0])(base[op][1])
        done += op
      for _ in range(12):
        x = both(next, "next")
        done += "."
        if x == ("stop",):
          break
      both(next, "next after the end")
    finally:
      if not e.killing:
        it.close()
  return run


def scenarios(tier):
  """(name, kind, threads, buffer, word, budget, mode)."""
  q = tier == "quick"
  for w in s01.words(3 if q else 4):
    short = len(w) < 3
    for kind in ("plain", "filtered"):
      if kind == "filtered" and not short and q:
        continue
      yield f"{kind}/t2b2/{w}", kind, 2, 2, w, 1, "line"
      if short or not q:
        for t, b in ((1, 1), (1, 3), (2, 1), (2, 3), (3, 3)):
          yield f"{kind}/t{t}b{b}/{w}", kind, t, b, w, 1, "line"
    if short or not q:
      yield f"plain/t2b2/{w}/sync", "plain", 2, 2, w, 2 if q else 3, "sync"
    if not q and short:
      yield f"plain/t2b2/{w}/two", "plain", 2, 2, w, 2, "line"
  for w in resize_words(3 if q else 4):
    yield f"plain/t2b2/{w}", "plain", 2, 2, w, 1, "line"
    if not q or len(w) < 3:
      yield f"plain/t1b1/{w}", "plain", 1, 1, w, 1, "line"


def cases(tier):
  sc = list(scenarios(tier))
  k = 64 if tier == "quick" else 512
  return [(f"chunk{i}", sc[i::k]) for i in range(k)]


def makers(kind, t, b):
  g = cat.g()
  m = g.MapDataset.range(4).map(lines.slow_map)
  if kind == "filtered":
    m = g.MapDataset.range(5).filter(cat.f_mod3).map(lines.slow_map)
  d = m.to_iter_dataset(g.ReadOptions(num_threads=t, prefetch_buffer_size=b))
  r = m.to_iter_dataset(g.ReadOptions(num_threads=0, prefetch_buffer_size=0))
  return (lambda: iter(d)), (lambda: iter(r))


def explore(res, name, scs):
  watch()
  for nm, kind, t, b, word, budget, mode in scs:
    if cli.skip(nm):
      continue
    make, ref = makers(kind, t, b)
    sched.explore(res, nm, body(make, ref, word), budget=budget, mode=mode, free=False)
