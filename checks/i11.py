"""I11: bin packing keeps every sequence whole, once, labelled and within capacity."""
import itertools

import numpy as np

from mc import catalog as cat
from mc import hist
from mc import report
from mc import vals
from mc.report import Violation

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of all short streams of sequence lengths x packer"
             " configurations on the real code against a plain-list packer")
RULE = ("one evaluation = one stream of sequences (all combinations of lengths) under one"
        " packer configuration (algorithm, bins, capacity, sequence limit, alignment,"
        " padding, meta features, shuffling); non-trivial: at least two sequences")


class Cfg:
  def __init__(self, algo="first", bins=2, cap=(3,), limit=None, align=None, pad=None,
               meta=(), shuffle=False, group=False, seed=0):
    self.__dict__.update(locals())
    del self.__dict__["self"]

  def __repr__(self):
    return ", ".join(f"{k}={v}" for k, v in self.__dict__.items())


FEATS = ("a", "b")


def make_elements(lens):
  """lens: per element a tuple of lengths, one per feature."""
  out = []
  for i, ls in enumerate(lens):
    e = {f: np.arange(n, dtype=np.int32 if f == "a" else np.int64) + 10 * (i + 1)
         for f, n in zip(FEATS, ls)}
    e["id"] = 1000 + i
    e["m"] = np.full(ls[0], -(i + 1), dtype=np.int16)
    e["other"] = "not packed"
    out.append(e)
  return out


def ref_pack(lens, c):
  """Batches of bins; a bin is a list of (element, start of each feature)."""
  nf = len(c.cap)
  align = c.align or (1,) * nf
  batches = []
  bins = None

  def place(ls):
    fits = []
    for b in bins:
      ok = all(b["free"][f] + ls[f] <= c.cap[f] for f in range(nf))
      fits.append(ok and (c.limit is None or len(b["items"]) < c.limit))
    if not any(fits):
      return
    if c.algo in ("first", "operation"):
      return fits.index(True)
    score = [sum(b["free"]) if ok else -1 for b, ok in zip(bins, fits)]
    return score.index(max(score))

  def new():
    return [{"free": [0] * nf, "items": []} for _ in range(c.bins)]

  for i, ls in enumerate(lens):
    if bins is None:
      bins = new()
    k = place(ls)
    if k is None:
      batches.append([b for b in bins if b["items"]])
      bins = new()
      k = place(ls)
    b = bins[k]
    b["items"].append((i, tuple(b["free"])))
    for f in range(nf):
      end = b["free"][f] + ls[f]
      b["free"][f] = -(-end // align[f]) * align[f]
  if bins is not None and any(b["items"] for b in bins):
    batches.append([b for b in bins if b["items"]])
  return batches


def ref_rows(lens, c):
  els = make_elements(lens)
  out = []
  for batch in ref_pack(lens, c):
    rows = []
    for b in batch:
      row = {}
      for f, cap in enumerate(c.cap):
        names = [FEATS[f]] + (["m"] if f == 0 and "m" in c.meta else [])
        for nm in names:
          pad = (c.pad or {}).get(nm, 0)
          v = np.full(cap, pad or 0, dtype=els[0][nm].dtype)
          seg = np.zeros(cap, np.int32)
          pos = np.zeros(cap, np.int32)
          for s, (i, starts) in enumerate(b["items"]):
            st = starts[f]
            n = lens[i][f]
            v[st:st + n] = els[i][nm]
            seg[st:st + n] = s + 1
            pos[st:st + n] = np.arange(n)
          row[nm] = v
          if nm not in c.meta:
            row[nm + "_segment_ids"] = seg
            row[nm + "_positions"] = pos
      if "id" in c.meta:
        row["id"] = [els[i]["id"] for i, _ in b["items"]]
      rows.append(row)
    out.append(rows)
  return out


def build(lens, c):
  g = cat.g()
  e = g.experimental
  cls = e.FirstFitPackIterDataset if c.algo == "first" else e.BestFitPackIterDataset
  ls = dict(zip(FEATS, c.cap))
  if "m" in c.meta:
    ls["m"] = c.cap[0]
  al = dict(zip(FEATS, c.align)) if c.align else None
  if al is not None and "m" in c.meta:
    al["m"] = c.align[0]
  pad = None if c.pad is None else {k: c.pad.get(k) for k in ls}
  els = make_elements(lens)
  d = g.MapDataset.source(els).to_iter_dataset(cat.ro())
  return cls(d, length_struct=ls, num_packing_bins=c.bins, seed=c.seed,
             shuffle_bins=c.shuffle, meta_features=c.meta, pack_alignment_struct=al,
             padding_struct=pad, max_sequences_per_bin=c.limit,
             shuffle_bins_group_by_feature="m" if c.group else None)


def key(rows):
  return [vals.norm({k: (list(v) if k == "id" else v) for k, v in r.items()}) for r in rows]


def check(res, lens, c):
  want = ref_rows(lens, c)
  total = sum(map(len, want))
  it = iter(build(lens, c))
  got = []
  try:
    for _ in range(total + 2):
      got.append(next(it))
  except StopIteration:
    pass
  res.executions += 1
  res.distinct += len(lens) > 1
  got = key(got)
  ctx = f"sequence lengths {lens}, {c}"
  if not c.shuffle:
    flat = key([r for b in want for r in b])
    if got != flat:
      raise Violation(f"{ctx}: packed into {got}, expected {flat}")
    return
  k = 0
  for b in want:
    w, o = key(b), got[k:k + len(b)]
    if sorted(map(repr, w)) != sorted(map(repr, o)):
      raise Violation(f"{ctx}: shuffled bins {o} are not the bins of the batch {w}")
    if c.group:
      def avg(r):
        u = [x for x in dict(r[1])["m"][3] if x]
        return sum(set(u)) / len(set(u)) if u else 0
      a = [avg(x) for x in o]
      if a != sorted(a):
        raise Violation(f"{ctx}: bins are not ordered by their group: {a}")
    k += len(b)
  if k != len(got):
    raise Violation(f"{ctx}: {len(got)} rows instead of {k}")
  again = key(list(itertools.islice(iter(build(lens, c)), total + 2)))
  if again != got:
    raise Violation(f"{ctx}: shuffled differently the second time: {got}, then {again}")


def check_operation(res, lens, c):
  """The same with the operation for data loaders, which gives whole batches."""
  from grain import python as py
  from grain._src.python import record
  els = [{f: e[f] for f in FEATS[:len(c.cap)]} for e in make_elements(lens)]
  op = py.experimental.PackAndBatchOperation(
      length_struct=dict(zip(FEATS, c.cap)), batch_size=c.bins, max_sequences_per_bin=c.limit)
  want = []
  for batch in ref_pack(lens, c):
    # Bins that are not used are rows of padding.
    data, last = [{}, {}, {}], -1
    for f, cap in enumerate(c.cap):
      nm = FEATS[f]
      for k, t in enumerate((els[0][nm].dtype, np.int32, np.int32)):
        data[k][nm] = np.zeros((c.bins, cap), t)
    rows = batch + [{"items": []}] * (c.bins - len(batch))
    # The reference leaves out unused bins, which are the last ones.
    for r, b in enumerate(rows):
      for s, (i, starts) in enumerate(b["items"]):
        last = max(last, i)
        for f in range(len(c.cap)):
          st, n = starts[f], lens[i][f]
          data[0][FEATS[f]][r, st:st + n] = els[i][FEATS[f]]
          data[1][FEATS[f]][r, st:st + n] = s + 1
          data[2][FEATS[f]][r, st:st + n] = np.arange(n)
    want.append((last, vals.norm(tuple(data))))
  recs = lambda: iter([record.Record(record.RecordMetadata(index=i, record_key=i), e)
                       for i, e in enumerate(els)])
  ctx = f"PackAndBatchOperation, sequence lengths {lens}, {c}"

  def run(it):
    return [(r.metadata.index, vals.norm(r.data)) for r in it]
  # Called again, also after a call that was not used up.
  two = op(recs())
  next(two, None)
  for k in range(3):
    got = run(op(recs()))
    if got != want:
      raise Violation(f"{ctx}: call {k + 1} packs into {got}, expected {want}")
  if run(two) != want[1:]:
    raise Violation(f"{ctx}: changes when called again")
  res.executions += 4
  res.distinct += len(lens) > 1


def configs(tier):
  """(lengths of one element, number of elements, config)."""
  q = tier == "quick"
  one = [(n,) for n in range(0, 4)]
  for algo, bins, limit in itertools.product(("first", "best"), (1, 2, 3), (None, 1, 2)):
    for align in (None, (2,)):
      yield one, (4 if q else 6) if align else (5 if q else 6), Cfg(
          algo=algo, bins=bins, limit=limit, align=align)
  for algo in ("first", "best"):
    yield one, 3, Cfg(algo=algo, cap=(5,), align=(4,), bins=2)
    yield one, 4, Cfg(algo=algo, pad={"a": -7}, meta=("id", "m"))
    yield one, 4, Cfg(algo=algo, pad={"a": -7, "m": 3}, meta=("m",), bins=3)
    yield one, 4, Cfg(algo=algo, meta=("id",), limit=2, cap=(4,))
    two = list(itertools.product(range(3), range(3)))
    if algo == "first":
      for bins, limit in itertools.product((1, 2, 3), (None, 1, 2)):
        yield one, 4 if q else 6, Cfg("operation", bins=bins, limit=limit)
      for bins in (1, 2):
        yield two, 3 if q else 4, Cfg("operation", bins=bins, cap=(3, 2))
    for bins in (1, 2, 3):
      for limit in (None, 2):
        yield two, 3 if q or limit else 4, Cfg(algo=algo, bins=bins, cap=(3, 2), limit=limit)
    yield two, 3, Cfg(algo=algo, cap=(3, 3), align=(2, 1), pad={"b": 9}, meta=("id",), bins=2)
    for seed in (0, 1):
      yield one, 4 if q else 5, Cfg(algo=algo, shuffle=True, bins=3, seed=seed)
    yield [(1,), (2,), (3,)], 5 if q else 6, Cfg(algo=algo, shuffle=True, group=True, bins=3, meta=("m",))


def cases(tier):
  out = []
  for i, (alpha, top, c) in enumerate(configs(tier)):
    parts = 4 if len(alpha) ** top > 1000 else 1
    for j in range(parts):
      out.append((f"config{i}/{j}", alpha, top, c, j, parts))
  return out


def explore(res, name, alpha, top, c, j, parts):
  idx = 0
  for n in range(0, top + 1):
    for lens in itertools.product(alpha, repeat=n):
      idx += 1
      if idx % parts == j:
        (check_operation if c.algo == "operation" else check)(res, lens, c)
  res.samples.append(f"{name}: {c}")
