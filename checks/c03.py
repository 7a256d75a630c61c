"""C03: interleaving reads every dataset once, in rotation, and checkpoints exactly."""
import itertools
import json

from mc import catalog as cat
from mc import hist
from mc import inline
from mc import report
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all operation histories on the real iterators,"
             " over all small tuples of dataset lengths and cycle lengths")
RULE = ("for every tuple of dataset lengths x cycle length x kind of dataset (x number of"
        " passes): output against the rotation model, and all histories over next / save /"
        " restore fresh, through JSON, in place / start over, to a fixpoint")
ASSUMPTIONS = ("iterators made ahead of time are made at once (an inline executor); the"
               " schedules of the making threads are covered by S01/S02",)


def configs(tier):
  out = []
  top = 2 if tier == "quick" else 3
  for n in range(0, 4):
    for lens in itertools.product(range(top + 1), repeat=n):
      for cyc in range(1, n + 2):
        out.append((lens, cyc))
  for lens in ((0, 0, 0, 1), (1, 0, 2, 1), (3, 1, 0, 2), (1, 1, 1, 1), (2, 0, 0, 2), (4, 1, 2, 1)):
    for cyc in (1, 2, 3, 4, 6):
      out.append((lens, cyc))
  if tier != "quick":
    for lens in itertools.product(range(3), repeat=4):
      for cyc in range(1, 5):
        out.append((lens, cyc))
  return dict.fromkeys(out)


def cases(tier):
  out = []
  for lens, cyc in configs(tier):
    for kind in ("iter", "map", "mapofds"):
      for passes in (1, 2, 3):
        if tier == "quick":
          deep = (kind == "iter" and len(lens) <= 3 and cyc <= 3 and sum(lens) <= 3 and passes == 1
                  or kind == "iter" and len(lens) == 2 and passes == 2
                  or (kind, passes) == ("map", 1) and sum(lens) <= 2
                  or (kind, passes) == ("mapofds", 1) and lens in ((1, 2), (1, 0, 1))
                  or (kind, lens, passes) == ("iter", (1, 1, 1), 3) and cyc < 3)
        else:
          deep = sum(lens) * passes <= 9
        out.append((kind, lens, cyc, passes, deep))
  # The long explorations first.
  out.sort(key=lambda c: (not c[4], -sum(c[1]) * c[3]))
  return report.chunked(out, 160 if tier == "quick" else 400, "configs")


def build(kind, lens, cyc, passes, buf=0, ahead=1, threads=1):
  g = cat.g()
  e = g.experimental
  if kind == "iter":
    ds = [cat.gen_src(n, 10 * i) if i % 2 else cat.src(n, 10 * i)
          for i, n in enumerate(lens)]
  elif kind == "map":
    ds = [g.MapDataset.source(list(range(10 * i, 10 * i + n))) for i, n in enumerate(lens)]
  else:
    ds = g.MapDataset.source(list(enumerate(lens))).map(
        cat.Fn(lambda p: cat.gen_src(p[1], 10 * p[0])))
  d = e.InterleaveIterDataset(ds, cycle_length=cyc, iter_buffer_size=buf,
                              make_iter_buffer_size=ahead, num_make_iter_threads=threads)
  if passes > 1:
    d = e.RepeatIterDataset(d, passes)
  return d


def model(lens, cyc, passes):
  lists = [list(range(10 * i, 10 * i + n)) for i, n in enumerate(lens)]
  if not lists:
    return []
  return cat.interleave_model(lists, cyc) * passes


def label(c):
  return f"{c[0]}{c[1]} cycle={c[2]} passes={c[3]}"


def explore(res, name, cs):
  for c in cs:
    kind, lens, cyc, passes, deep = c
    want = model(lens, cyc, passes)
    try:
      with hang_guard(90):
        real(res, kind, lens, cyc, passes, want)
        inline.patch()
        positions(res, lambda: build(kind, lens, cyc, passes), want)
        if deep:
          hist.explore(res, label(c), lambda: build(kind, lens, cyc, passes),
                       slots=1, depth=60, max_states=8000,
                       ops=("next", "save", "restore", "fresh", "json", "new"),
                       expected=want)
    except Violation as e:
      res.violation(label(c), f"{label(c)}: {e}", {"case": name, "config": label(c)})
    except Hang as e:
      import traceback
      res.violation(label(c), f"{label(c)}: does not terminate: {e}\n{traceback.format_exc()[-2500:]}", {"case": name})
    finally:
      inline.unpatch()


def positions(res, make, want):
  """Every state of one uninterrupted run, restored everywhere."""
  want = [vals.norm(v) for v in want]
  it = iter(make())
  states = []
  for i in range(len(want) + 2):
    states.append((min(i, len(want)), it.get_state()))
    if i < len(want):
      got = vals.norm(next(it))
      if got != want[i]:
        raise Violation(f"element {i} is {got} instead of {want[i]} when states are saved")
    elif hist.run_to_end(it, 2):
      raise Violation("continues after its end")
  copies = json.dumps([s for _, s in states])
  for i, s in states[::-1] + states:
    for how in ("live", "fresh", "json"):
      t = it if how == "live" else iter(make())
      t.set_state(s if how != "json" else json.loads(json.dumps(s)))
      got = hist.run_to_end(t, len(want) + 3)
      res.transitions += 1
      if got != want[i:]:
        raise Violation(f"the state of position {i} restored ({how}) continues with"
                        f" {got} instead of {want[i:]}")
  if json.dumps([s for _, s in states]) != copies:
    raise Violation("a saved state changed")
  res.states += len(states)
  res.executions += 6 * len(states)


def real(res, kind, lens, cyc, passes, want):
  for buf, ahead, threads in ((1, 1, 1), (2, 2, 2)):
    it = iter(build(kind, lens, cyc, passes, buf, ahead, threads))
    got = hist.run_to_end(it, len(want) + 3)
    it.close()
    if got != [vals.norm(v) for v in want]:
      raise Violation(f"buffer {buf}, {ahead} iterators ahead: yields {got}, the rotation"
                      f" of the datasets is {want}")
    res.executions += 1
