"""S04: resizable queues never exceed their capacity, lose items or deadlock."""
import itertools
import queue
import threading

from mc import cli
from mc import lines
from mc import sched
from mc import simmp
from mc.report import Violation

LEVEL = "model_checking"
TECHNIQUE = ("controlled scheduler over the real queue classes: all schedules up to a"
             " deviation bound of small sets of producers, consumers and resizers")
RULE = ("one execution = one schedule of one scenario on the real queue; every result"
        " is checked against what any order of the overlapping calls allows")

pre_boot = simmp.install


class Monitor:
  """Judges the results of overlapping calls from the outside.

  `least`/`most`: the fewest/most items the queue can hold now, given which calls
  have begun and ended; `caps`: the capacities in force (more than one while a
  resize is going on).
  """

  def __init__(self, cap, name):
    self.name = name
    self.cap = cap
    self.resizing = []
    self.begun_put = self.ended_put = self.refused = 0
    self.begun_get = self.ended_get = 0
    self.got = []
    self.put = []
    self.open = []  # windows of running calls: [min size, max cap, max size, min cap]

  def caps(self):
    return [self.cap] + self.resizing

  def least(self):
    return self.ended_put - (self.begun_get)

  def most(self):
    return self.begun_put - self.refused - self.ended_get

  def note(self):
    for w in self.open:
      w[0] = max(w[0], max(self.caps()))
      w[1] = min(w[1], min(self.caps()))
      w[2] = min(w[2], self.least())
      w[3] = max(w[3], self.most())

  def window(self):
    w = [max(self.caps()), min(self.caps()), 10**9, -10**9]
    self.open.append(w)
    self.note()
    return w


def producer(q, mon, items, how):
  for x in items:
    mon.begun_put += 1
    mon.put.append(x)
    w = mon.window()
    mon.note()
    try:
      if how == "block":
        lines.call(q.put, x)
      elif how == "nowait":
        lines.call(q.put, x, block=False)
      else:
        lines.call(q.put, x, timeout=5)
      ok = True
    except queue.Full:
      ok = False
    mon.note()
    mon.open = [v for v in mon.open if v is not w]
    if ok:
      mon.ended_put += 1
      # Some moment of this call saw room: fewest items before it < largest capacity.
      if w[2] >= w[0]:
        raise Violation(f"{mon.name}: put of {x} was accepted although at least {w[2]} items"
                        f" were held with a capacity of {w[0]}")
    else:
      # Without this put's own item.
      if w[3] - 1 < w[1]:
        raise Violation(f"{mon.name}: put of {x} was refused although at most {w[3] - 1} items"
                        f" were held with a capacity of {w[1]}")
      mon.refused += 1
      mon.put.remove(x)
    mon.note()


def consumer(q, mon, n, how, out):
  for _ in range(n):
    mon.begun_get += 1
    mon.note()
    try:
      if how == "nowait":
        x = lines.call(q.get, block=False)
      elif how == "timeout":
        x = lines.call(q.get, timeout=5)
      else:
        x = lines.call(q.get)
    except queue.Empty:
      mon.begun_get -= 1
      continue
    mon.ended_get += 1
    mon.note()
    mon.got.append(x)
    out.append(x)


def resizer(q, mon, sizes):
  for s in sizes:
    mon.resizing.append(s)
    mon.note()
    lines.call(q.set_max_size, s)
    mon.cap = s
    mon.resizing.remove(s)
    mon.note()


def body(kind, cap, prods, cons, sizes, name, phase=""):
  """prods: (items, how) each; cons: (count, how) each; sizes: resizes."""
  def run(e):
    from grain._src.python.ipc import variable_size_queue as vsq
    mon = Monitor(cap, name)
    if kind == "thread":
      q = vsq.VariableSizeQueue(cap)
    else:
      ctx = simmp.SimContext()
      q = vsq.VariableSizeMultiprocessingQueue(cap, ctx)
    ts = []
    outs = [[] for _ in cons]
    base = 0
    for items, how in prods:
      xs = [base + i for i in range(items)]
      base += 10
      h = q if kind == "thread" else simmp.clone_for_process(q, [])
      ts.append(threading.Thread(target=producer, args=(h, mon, xs, how),
                                 name=f"producer{base}"))
    for (n, how), out in zip(cons, outs):
      h = q if kind == "thread" else simmp.clone_for_process(q, [])
      ts.append(threading.Thread(target=consumer, args=(h, mon, n, how, out),
                                 name="consumer"))
    np = len(prods)

    def settled():
      # Nobody is left waiting for room that is there.
      e.drain()
      held = mon.ended_put - mon.ended_get
      if any(t.is_alive() for t in ts[:np]) and held < mon.cap:
        raise Violation(f"{name}: a put waits although the queue holds {held} items"
                        f" with a capacity of {mon.cap}")

    for t in ts[:np]:
      t.start()
    if phase:
      settled()
    if phase == "alone":
      for s in sizes:
        resizer(q, mon, [s])
        settled()
      sizes_left = ()
    else:
      sizes_left = sizes
    for t in ts[np:]:
      t.start()
    resizer(q, mon, sizes_left)
    for t in ts:
      t.join()
    if e.errors:
      raise Violation(f"{name}: a call raised {e.errors[0]}")
    # What is left comes out now.
    rest = []
    if kind != "thread":
      e.drain()
    while True:
      try:
        rest.append(q.get(block=False))
      except queue.Empty:
        break
    got = mon.got + rest
    if sorted(got) != sorted(mon.put):
      raise Violation(f"{name}: put {mon.put}, got {got}")
    for out in outs + [got if len(outs) == 1 else []]:
      for b in range(0, base, 10):
        mine = [x for x in out if b <= x < b + 10]
        if mine != sorted(mine):
          raise Violation(f"{name}: items of one producer came out as {mine}")
    if len(prods) == 1 and len(outs) == 1 and got != mon.put:
      raise Violation(f"{name}: put {mon.put}, got {got}")
    # Afterwards exactly the current capacity is available.
    full = 0
    try:
      for i in range(mon.cap + 3):
        q.put(i, block=False)
        full += 1
    except queue.Full:
      pass
    if full != mon.cap:
      raise Violation(f"{name}: an empty queue of capacity {mon.cap} accepts {full} items")
    # Rest of the capacity after a change while holding items.
    for s in (mon.cap + 1, 1, 2, 3, 1):
      q.set_max_size(s)
      try:
        while True:
          q.put(0, block=False)
          full += 1
          if full > s:
            raise Violation(f"{name}: the queue holds {full} items with a capacity of {s}"
                            f" (resized while holding items)")
      except queue.Full:
        if full < s:
          raise Violation(f"{name}: refuses an item holding {full} with a capacity of {s}") from None
      if kind != "thread":
        e.drain()
      q.get()
      full -= 1
  return run


def scenarios(tier):
  q = tier == "quick"
  prods = [((1, "block"), (1, "block")), ((3, "block"),), ((2, "block"), (1, "nowait")),
           ((2, "timeout"), (1, "block")), ((2, "block"), (2, "block"))]
  resize = [(), (2,), (1,), (3, 1), (1, 3), (2, 1), (1, 2)]
  if not q:
    resize += [(1, 2, 1), (3, 1, 2), (1, 3, 1), (2, 3, 1), (1, 2, 3)]
    prods += [((3, "timeout"), (3, "block")), ((4, "block"),)]
  for kind in ("thread", "mp"):
    for cap in (1, 2, 3):
      for ps in prods:
        n = sum(c for c, _ in ps)
        conss = [((n, "block"),)]
        if any(h != "block" for _, h in ps):
          conss = [((n, "timeout"),)]
        else:
          conss += [((n - 1, "block"), (1, "block"))]
          conss += [((n - 1, "block"), (1, "nowait"))] if q is False else []
        for cs in conss:
          for rs in resize:
            if cap == 3 and not rs:
              continue
            nm = f"{kind}/cap{cap}/put{ps}/get{cs}/resize{rs}".replace(" ", "").replace("'", "")
            three = len(ps) + len(cs) > 2
            yield nm, kind, cap, ps, cs, rs, 1 if three and q else 2, "sync"
            yield nm + "/line", kind, cap, ps, cs, rs, 1, "line"
            if rs:
              yield nm + "/filled", kind, cap, ps, cs, rs, 1, "line"
              if len(ps) > 1 and cs[0][1] == "block" and len(cs) == 1:
                yield nm + "/alone", kind, cap, ps, cs, rs, 1, "line"
            if not q:
              yield nm + "/deep", kind, cap, ps, cs, rs, 2 if three else 3, "line"


def cases(tier):
  sc = list(scenarios(tier))
  k = 64 if tier == "quick" else 512
  return [(f"chunk{i}", sc[i::k]) for i in range(k)]


def explore(res, name, scs):
  from grain._src.python.ipc import variable_size_queue as vsq
  sched.watch(vsq, lines.__file__)
  for nm, kind, cap, ps, cs, rs, budget, mode in scs:
    if cli.skip(nm):
      continue
    anytime = any(h == "timeout" for _, h in ps + cs)
    sched.explore(res, nm, body(kind, cap, ps, cs, rs, nm,
                                       nm.rsplit("/", 1)[-1] if nm.endswith(("filled", "alone")) else ""), budget=budget, mode=mode,
                  timeouts=anytime, free=False)
