"""C05: DataLoader checkpoints resume exactly, for every shard, operations and position."""
import itertools
import os

from mc import hist
from mc import loaders
from mc import report
from mc import shm
from mc import simrun
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all histories of the real DataLoader iterator without"
             " workers; with workers, as tasks of a controlled scheduler, every position saved,"
             " restored into a fresh and into a live iterator at every other position")
RULE = ("without workers: all histories of next / save (two slots) / restore in place / restore"
        " fresh / start over, to a fixpoint of canonical object graphs; with workers: all pairs"
        " (saved at, restored at) and all pairs of consecutive restores; all pairs of loaders"
        " that differ in worker count, record order or source: refused, iterator unmoved")
ASSUMPTIONS = ("workers run under the default schedule (all schedules: S03)",
               "samplers and sources describe themselves completely in repr, as documented",
               "legacy operations with memory of their own are not checkpointed (documented)")

pre_boot = simrun.install

CHAINS = [(), ("map",), ("random",), ("filter",), ("flat",), ("batch2",), ("batch2drop",),
          ("oldmap",), ("oldfilter",), ("oldbatch",), ("userop",), ("oldrandom",),
          ("map", "batch2"), ("filter", "batch2"), ("random", "filter"), ("flat", "batch2"),
          ("filter", "flat"), ("batch2", "filter"), ("oldfilter", "batch2"),
          ("batch2", "oldmap"), ("flat", "filter", "batch2drop"), ("filter", "batch2", "map"),
          ("flat", "flat"), ("oldmap", "oldfilter"), ("batch2", "flat")]


def configs(tier):
  """(mode, kind, n, epochs, shards, index, drop, chain, workers)"""
  q = tier == "quick"
  out = []
  for ch in CHAINS:
    # Generators have no canonical form.
    old = any(c.startswith(("old", "user")) and c != "oldbatch" for c in ch)
    for n in (1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 7):
      out.append(("graph", "shuffle", n, 1, 1, 0, False, ch, 0))
      if old:
        out.append(("pairs", "shuffle", n, 1, 1, 0, False, ch, 0))
    if not old or not q:
      out.append(("graph", "shuffle", 5, 1, 2, 1, False, ch, 0))
    for w in (1, 2, 3):
      for n in (3, 4) if q else (1, 2, 3, 4, 5, 6):
        if q and ((n == 3 and w == 1) or (n == 4 and w == 3 and len(ch) > 1)
                  or (n == 3 and w == 3 and len(ch) == 1)):
          continue
        out.append(("pairs", "shuffle", n, 1, 1, 0, False, ch, w))
  for kind in ("plain", "shuffle", "seq", "sizedtable", "table"):
    for shards in (1, 2, 3):
      for index in range(shards):
        for drop in (False, True):
          for epochs in (1, 2):
            if kind == "seq" and epochs > 1:
              continue
            for n in (4, 5) if q else (1, 2, 3, 4, 5, 6):
              for ch in (("map",), ("batch2",)):
                if kind != "seq" and n < shards:
                  continue
                if q and (ch == ("map",)) == bool(n % 2):
                  continue
                out.append(("graph", kind, n, epochs, shards, index, drop, ch, 0))
                for w in (1, 2, 3):
                  if q and ((w + index + epochs) % 3 or (n == 5 and drop)):
                    continue
                  out.append(("pairs", kind, n, epochs, shards, index, drop, ch, w))
  return list(dict.fromkeys(out))


def label(c):
  if c[0] == "refuse":
    return f"refused {c[1:]}"
  mode, kind, n, epochs, shards, index, drop, ch, w = c
  return (f"{n} records {kind} epochs={epochs} shard {index} of {shards}{' drop' if drop else ''}"
          f" workers={w} ops={'+'.join(ch)}")


def variants():
  """name -> loader arguments; the record orders or worker counts or sources differ."""
  base = dict(kind="shuffle", n=4, epochs=2, shards=1, index=0, drop=False, chain=("map",),
              workers=0)
  out = {"base": base}
  for k, v in (("workers", 1), ("workers", 2), ("n", 5), ("epochs", 1), ("seed", 5),
               ("kind", "plain"), ("kind", "sizedtable"), ("off", 1)):
    out[f"{k}={v}"] = {**base, k: v}
  out["shard 0 of 2"] = {**base, "shards": 2}
  out["shard 1 of 2"] = {**base, "shards": 2, "index": 1}
  out["seq"] = {**base, "kind": "seq", "epochs": 1}
  out["seq5"] = {**base, "kind": "seq", "epochs": 1, "n": 5}
  return out


def cases(tier):
  cs = sorted(configs(tier), key=lambda c: (c[0] != "pairs", -c[2]))
  names = list(variants())
  pairs = [("refuse", a, b) for a in names for b in names if a != b]
  return (report.chunked(cs, 128 if tier == "quick" else 384, "configs")
          + report.chunked(pairs, 8, "refuse"))


def build(c):
  _, kind, n, epochs, shards, index, drop, ch, w = c
  return loaders.make(kind, n, epochs, shards, index, drop, ch, w)


def rest(it):
  return hist.run_to_end(it, 60)


def close(it):
  getattr(getattr(it, "_iterator", None), "close", lambda: None)()  # pylint: disable=protected-access


def pairs(res, c, tier):
  ld = build(c)
  it = iter(ld)
  exp, states = [], [it.get_state()]
  while True:
    try:
      exp.append(vals.norm(next(it)))
    except StopIteration:
      break
    states.append(it.get_state())
  n = len(exp)
  end = it.get_state()
  close(it)
  res.states += len(states)
  states.append(end)  # After running against the end.
  pos = [*range(n + 1), n]

  def same(got, p, what):
    if got != exp[pos[p]:]:
      raise Violation(f"saved at {pos[p]}{' (past the end)' if p > n else ''}, {what}: {got}"
                      f" instead of {exp[pos[p]:]}")

  for p, s in enumerate(states):
    for q in range(-1, n + 2):
      if tier == "quick" and (c[1], c[3], c[6]) != ("shuffle", 1, False) and q not in (
          -1, 0, (p + 1) % (n + 1), n + 1):
        continue
      it = iter(ld)
      if q >= 0:
        for _ in range(q):
          try:
            next(it)
          except StopIteration:
            break
        what = f"restored at {q}"
      else:
        what = "restored fresh"
      it.set_state(s)
      res.transitions += 1
      res.executions += 1
      if q < 0:
        # A checkpoint of the restored iterator is as good.
        again = it.get_state()
        same(rest(it), p, what)
        it.set_state(again)
        same(rest(it), p, what + ", saved and restored at its end")
      elif pos[p] < n and (q + p) % 2:
        # One step, save, and on from there.
        v = vals.norm(next(it))
        if v != exp[pos[p]]:
          raise Violation(f"saved at {p}, {what}: first {v}, not {exp[pos[p]]}")
        s2 = it.get_state()
        it.set_state(s)
        it.set_state(s2)
        same(rest(it), p + 1, what + f", saved after one step from {p}")
      else:
        same(rest(it), p, what)
      close(it)


def refuse(res, a, b):
  """A state of loader a is not accepted by loader b."""
  v = variants()
  la, lb = loaders.make(**v[a]), loaders.make(**v[b])
  exp = None
  for p in (0, 1, 2):
    it = iter(la)
    for _ in range(p):
      next(it)
    s = it.get_state()
    close(it)
    for q in (0, 1, 3):
      it = iter(lb)
      out = []
      for _ in range(q):
        out.append(vals.norm(next(it, None)))
      before = it.get_state()
      res.transitions += 1
      try:
        it.set_state(s)
      except ValueError:
        pass
      else:
        raise Violation(f"state of {a} accepted by {b}")
      if it.get_state() != before:
        raise Violation(f"state of {a} refused by {b}, but its iterator moved from {before} to"
                        f" {it.get_state()}")
      out += rest(it)
      close(it)
      if exp is None:
        it = iter(lb)
        exp = rest(it)
        close(it)
      if [o for o in out if o is not None] != exp:
        raise Violation(f"state of {a} refused by {b}, which then yields {out}, not {exp}")
  res.states += 1
  res.executions += 1


def explore(res, name, cs):
  tier = os.environ.get("VERIF_TIER", "quick")
  shm.install()
  import time
  for c in cs:
    t0 = time.time()
    if "MC_SLOW" in os.environ and res.distinct:
      print("took", round(t0 - last, 2), lab, flush=True)
    last, lab = t0, label(c)
    try:
      with hang_guard(150):
        res.distinct += 1
        if c[0] == "graph":
          old = any(o.startswith(("old", "user")) and o != "oldbatch" for o in c[7])
          top = (100 if old else 1500) * (1 if tier == "quick" else 8)
          hist.explore(res, label(c), lambda: build(c), slots=2 if c[2] < 4 else 1, depth=40,
                       max_states=top,
                       ops=("next", "save", "restore", "fresh", "new"))
        else:
          shm.reset()
          if c[0] == "pairs":
            simrun.call(lambda: pairs(res, c, tier))
          else:
            simrun.call(lambda: refuse(res, *c[1:]))
    except Violation as e:
      res.violation(label(c), f"{label(c)}: {e}", {"case": name, "config": label(c)})
    except Hang as e:
      res.violation(label(c), f"{label(c)}: does not terminate: {e}", {"case": name})
  res.samples.append(label(cs[0]))
