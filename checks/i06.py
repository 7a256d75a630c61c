"""I06: a DataLoader delivers each record exactly once per epoch over shards and workers."""
import itertools
import os

from mc import catalog as cat
from mc import hist
from mc import loaders
from mc import report
from mc import shm
from mc import simrun
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of small loader configurations on the real DataLoader, worker"
             " processes as tasks of a controlled scheduler, against a reference model")
RULE = ("records x shards x remainder policy x epochs x sampler x worker count x chains of"
        " operations; each shard's loader is read to its end twice and compared, element for"
        " element and in order, with the model: worker k of w reads every w-th of the shard's"
        " sampler positions, and the workers are asked in rotation; over all shards each record"
        " comes once per epoch, less the agreed remainder")
ASSUMPTIONS = ("workers run under the default schedule (all schedules: S03, S05)",
               "samplers are as I05 describes them",
               "random operations after a flat map have no generator and are left out")

pre_boot = simrun.install


def chains(tier):
  names = list(loaders.ops())
  out = [()] + [(c,) for c in names]
  flatter = [c for c in names if c not in ("batch2drop", "batchfn", "oldbatch", "oldrandom")]
  for a in names:
    for b in names:
      if a == "flat" and b in ("random", "oldrandom"):
        continue
      if b == "batchfn" and a.startswith(("batch", "old")):
        continue
      if a.startswith(("batch", "oldb")) and b in ("batch2", "oldbatch", "batchfn"):
        continue  # ragged
      if tier != "quick" or (a in flatter and b in ("filter", "batch2", "random", "map", "flat")):
        out.append((a, b))
  out += [("map", "filter", "batch2"), ("random", "filter", "batch2drop"),
          ("flat", "filter", "batch2"), ("filter", "flat", "batch2drop"),
          ("batch2", "random", "map"), ("random", "random", "batch2")]
  return out


def configs(tier):
  """(sampler kind, n, epochs, shards, drop, chain, workers, buffer)"""
  q = tier == "quick"
  out = []
  top = 6 if q else 9
  # The distribution of records.
  for kind in ("plain", "shuffle", "seq", "table", "sizedtable"):
    for n in range(1, top + 1):
      for shards in (1, 2, 3):
        for drop in (False, True):
          if kind != "seq" and n < shards:
            continue
          for epochs in (1, 2):
            if kind == "seq" and epochs > 1:
              continue
            for w in (0, 1, 2, 3):
              if q and (w in (1, 3) and (n < 4 or kind.endswith("table"))):
                continue
              for ch in (("map",), ("map", "batch2")):
                if w and q and (len(ch) - 1) != n % 2:
                  continue
                out.append((kind, n, epochs, shards, drop, ch, w, 1))
  # What is done to them.
  for ch in chains(tier):
    for n in (0, 1, 2, 3, 5, 7) if not q else (1, 3, 5):
      for w in (0, 1, 2, 3) if not q else (0, 2, 3):
        for shards in (1, 2):
          if n == 0 or n < shards or (q and w and (n + w + shards) % 2 and len(ch) > 1):
            continue
          out.append(("shuffle", n, 1, shards, False, ch, w, 1))
  for ch in ((), ("map", "batch2")):
    for w in (1, 2):
      for buf in (2, 3):
        out.append(("plain", 5, 1, 1, False, ch, w, buf))
    for w in (0, 1, 2, 3):
      out.append(("plain", 2, None, 1, False, ch, w, 1))
      out.append(("shuffle", 4, None, 2, True, ch, w, 1))
  return list(dict.fromkeys(out))


def label(c):
  kind, n, epochs, shards, drop, ch, w, buf = c
  return (f"{n} records {kind} epochs={epochs} shards={shards}{' drop' if drop else ''}"
          f" workers={w} buffer={buf} ops={'+'.join(ch)}")


def cases(tier):
  cs = sorted(configs(tier), key=lambda c: -c[6])
  out = report.chunked(cs, 96 if tier == "quick" else 256, "configs")
  out += [(f"load{i}", list(range(i, 400, 8))) for i in range(8)]
  return out


def take(it, k):
  out = []
  for x in it:
    out.append(vals.norm(x))
    if len(out) == k:
      break
  return out


def one(res, c):
  kind, n, epochs, shards, drop, ch, w, buf = c
  top = 12 if epochs is None else None
  everything = []
  for i in range(shards):
    recs = lambda: loaders.records(kind, n, epochs, shards, i, drop, top=top)
    want = loaders.model(recs(), ch, w)
    everything += [x for x, _ in recs()]
    k = None
    if top:
      k = 6
      want = want[:k]
    ld = loaders.make(kind, n, epochs, shards, i, drop, ch, w, buf=buf)
    for run in range(2):
      it = iter(ld)
      got = take(it, k)
      res.executions += 1
      res.transitions += len(got)
      if got != want:
        raise Violation(f"shard {i}, run {run}: {got} instead of {want}")
      if k is None:
        more = take(it, 1)
        if more:
          raise Violation(f"shard {i}: goes on after its end with {more}")
      getattr(getattr(it, "_iterator", None), "close", lambda: None)()  # pylint: disable=protected-access
  if epochs is not None:
    res.states += 1
    if kind == "seq" or drop or n % shards == 0 or epochs == 1:
      per = n - n % shards if drop else n
      if kind.endswith("table") or kind == "seq":
        per = n * epochs - (n * epochs) % shards if drop else n * epochs
        if len(everything) != per:
          raise Violation(f"all shards together read {len(everything)} records, not {per}")
      else:
        counts = sorted(everything.count(x) for x in set(everything))
        if len(everything) != per * epochs or counts != [epochs] * per:
          raise Violation(f"all shards together read {sorted(everything)} in {epochs} epochs")


def load_configs():
  for n in (1, 2, 3, 5):
    for bs in (None, 1, 2, 3):
      for drop in (False, True):
        for w in (0, 2):
          for tr in ((), ("map",), ("filter",)):
            yield n, bs, drop, w, tr
          if bs == 2:
            yield n, bs, drop, w, ("random",)


def load(res, c):
  """grain.load with a batch size equals the loader with a batch operation."""
  n, bs, drop, w, tr = c
  g = loaders.py()
  import grain._src.python.load as gl
  want = loaders.model(
      loaders.records("shuffle", n, 1, 1, 0, False),
      (*tr, *(() if bs is None else ("batch",))), w) if bs is None else None
  if want is None:
    table = loaders.ops()
    recs = loaders.records("shuffle", n, 1, 1, 0, False)
    lanes = [recs[k::w] for k in range(w)] if w else [recs]
    done = []
    import numpy as np
    for lane in lanes:
      for t in tr:
        lane = list(table[t][1](lane))
      xs = [x for x, _ in lane]
      done.append([vals.norm(np.asarray(xs[i:i + bs])) for i in range(0, len(xs), bs)
                   if len(xs[i:i + bs]) == bs or not drop])
    want = cat.interleave_model(done, max(w, 1))
  ld = gl.load(g.RangeDataSource(10, 10 + n, 1), num_epochs=1, shuffle=True, seed=4,
               transformations=[loaders.ops()[t][0]() for t in tr], batch_size=bs,
               drop_remainder=drop, worker_count=w, read_options=cat.ro())
  it = iter(ld)
  got = take(it, None)
  getattr(getattr(it, "_iterator", None), "close", lambda: None)()  # pylint: disable=protected-access
  res.executions += 1
  if got != want:
    raise Violation(f"load delivers {got} instead of {want}")


def run(c, f):
  shm.reset()
  return simrun.call(f)


def explore(res, name, cs):
  shm.install()
  if name.startswith("load"):
    all_c = list(load_configs())
    cs = [all_c[i] for i in cs if i < len(all_c)]
    f, lab = load, lambda c: "load" + str(c)
  else:
    f, lab = one, label
  for c in cs:
    try:
      with hang_guard(100):
        run(c, lambda: f(res, c))
        res.distinct += 1
        res.states += 1
    except Violation as e:
      res.violation(lab(c), f"{lab(c)}: {e}", {"case": name, "config": lab(c)})
    except Hang as e:
      res.violation(lab(c), f"{lab(c)}: does not terminate: {e}", {"case": name})
  res.samples.append(lab(cs[0]) if cs else "")
