"""DataLoaders and what they should deliver."""
import numpy as np

from mc import catalog as cat
from mc import vals


def py():
  import grain.python as g
  return g


def classes():
  if hasattr(classes, "c"):
    return classes.c
  g = py()

  class Double(g.MapTransform):
    def map(self, x):
      return cat.tmap(lambda v: 2 * v, x)

  class Jitter(g.RandomMapTransform):
    def random_map(self, x, rng):
      r = int(rng.integers(1000))
      return cat.tmap(lambda v: 1000 * v + r, x)

  class NotThird(g.FilterTransform):
    def filter(self, x):
      return cat.num(x) % 3 != 1

  class Fan(g.experimental.FlatMapTransform):
    max_fan_out = 2
    def flat_map(self, x):
      return [cat.tmap(lambda v: v + 100 * i, x) for i in range(cat.num(x) % 3)]

  class UserOp:
    """A user-defined legacy operation: one record in, one out."""
    def __call__(self, it):
      import grain._src.python.record as r
      for x in it:
        yield r.Record(x.metadata.remove_record_key(), cat.tmap(lambda v: v + 7, x.data))

  classes.c = dict(Double=Double, Jitter=Jitter, NotThird=NotThird, Fan=Fan, UserOp=UserOp)
  return classes.c


# --- operations: name -> (make, model); a model maps a list of (data, rng) -----------


def ops():
  g = py()
  c = classes()
  from grain._src.python import operations as o
  double = lambda rs: [(cat.tmap(lambda v: 2 * v, x), r) for x, r in rs]
  keep = lambda rs: [(x, r) for x, r in rs if cat.num(x) % 3 != 1]

  def jitter(rs):
    for x, r in rs:
      k = int(r.integers(1000))
      yield cat.tmap(lambda v: 1000 * v + k, x), r

  def fan(rs):
    return [(cat.tmap(lambda v: v + 100 * i, x), None) for x, r in rs
            for i in range(cat.num(x) % 3)]

  def batch(n, drop):
    def f(rs):
      rs = list(rs)
      out = []
      for i in range(0, len(rs), n):
        b = rs[i:i + n]
        if len(b) == n or not drop:
          out.append((np.asarray([x for x, _ in b]), b[-1][1]))
      return out
    return f

  def blist(rs):
    rs = list(rs)
    return [([x for x, _ in rs[i:i + 2]], rs[i:i + 2][-1][1]) for i in range(0, len(rs), 2)]

  return {
      "map": (c["Double"], double),
      "random": (c["Jitter"], jitter),
      "filter": (c["NotThird"], keep),
      "flat": (c["Fan"], fan),
      "batch2": (lambda: g.Batch(2), batch(2, False)),
      "batch2drop": (lambda: g.Batch(2, drop_remainder=True), batch(2, True)),
      "batchfn": (lambda: g.Batch(2, batch_fn=list), blist),
      "oldmap": (lambda: o.MapOperation(cat.Fn(lambda x: cat.tmap(lambda v: 2 * v, x))), double),
      "oldfilter": (lambda: o.FilterOperation(cat.Fn(lambda x: cat.num(x) % 3 != 1)), keep),
      "oldrandom": (lambda: o.RandomMapOperation(
          lambda x, r: cat.tmap(lambda v, k=int(r.integers(1000)): 1000 * v + k, x)), jitter),
      "oldbatch": (lambda: g.BatchOperation(2), batch(2, False)),
      "userop": (c["UserOp"], lambda rs: [(cat.tmap(lambda v: v + 7, x), r) for x, r in rs]),
  }


class TableSampler:
  """A user's sampler."""

  def __init__(self, keys, sized):
    self.keys = keys
    if sized:
      self.__class__ = type("SizedTableSampler", (TableSampler,),
                            {"__len__": lambda s: len(s.keys)})

  def __getitem__(self, i):
    from grain._src.python import record
    if i < 0 or i >= len(self.keys):
      raise IndexError(i)
    return record.RecordMetadata(index=i, record_key=self.keys[i],
                                 rng=np.random.default_rng([5, i]))

  def __repr__(self):
    return f"TableSampler({self.keys})"


def sampler(kind, n, epochs, opts, seed=4):
  g = py()
  if kind == "seq":
    return g.SequentialSampler(n, shard_options=opts, seed=seed)
  if kind in ("table", "sizedtable"):
    keys = [(3 * i + 1) % n for i in range(n)] * (epochs or 1) if n else []
    return TableSampler(keys, kind == "sizedtable")
  return g.IndexSampler(n, shard_options=opts, shuffle=kind == "shuffle", num_epochs=epochs,
                        seed=seed)


def make(kind, n, epochs, shards, index, drop, chain, workers, *, seed=4, buf=1, off=0, via=None):
  g = py()
  opts = g.ShardOptions(index, shards, drop) if (shards, drop) != (1, False) or kind == "table" \
      else g.NoSharding()
  s = sampler(kind, n, epochs, opts, seed)
  table = ops()
  kw = {}
  if kind.endswith("table"):
    kw["shard_options"] = opts
  return g.DataLoader(
      data_source=g.RangeDataSource(10 + off, 10 + off + n, 1), sampler=s,
      operations=[table[c][0]() for c in chain], worker_count=workers,
      worker_buffer_size=buf, read_options=cat.ro(), **kw)


def records(kind, n, epochs, shards, index, drop, seed=4, off=0, top=None):
  """[(data, rng)] of one shard, in the order of its sampler."""
  g = py()
  opts = g.ShardOptions(index, shards, drop)
  s = sampler(kind, n, epochs, opts, seed)
  out = []
  total = 0
  while top is None or total < top * shards:
    try:
      s[total]
    except IndexError:
      break
    total += 1
  if drop:
    total -= total % shards
  for i in range(index, total, shards):
    m = s[i]
    out.append((10 + off + m.record_key, m.rng))
  return out


def model(recs, chain, workers):
  table = ops()
  lanes = [recs[k::workers] for k in range(workers)] if workers else [recs]
  done = []
  for lane in lanes:
    for c in chain:
      lane = list(table[c][1](lane))
    done.append([vals.norm(x) for x, _ in lane])
  return cat.interleave_model(done, max(workers, 1))
