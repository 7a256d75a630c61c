"""I05: samplers."""
import itertools

from mc import report
from mc.report import Violation

LEVEL = "exploration"
RULE = ("one evaluation = one sampler (records, shards, remainder policy, shuffle, seed,"
        " epochs) whose every global index is read; all combinations within the bounds."
        " Non-trivial: more than one record")
UNEVEN = ("IndexSampler: records not divisible by shards, remainder kept, several"
          " epochs: epochs of the shards drift apart")
EMPTY = "IndexSampler: kept remainder, fewer records than shards, several epochs"


def cases(tier):
  top = 11 if tier == "quick" else 20
  ns = list(range(1, top)) + [33, 64]
  out = []
  for n in ns:
    for c in (range(1, 6) if n < 12 else (1, 2, 5, 7)):
      out.append((n, c))
  return report.chunked(out, 16, "sizes")


def read(s, n):
  return [s[i] for i in range(n)]


def keys(ms):
  return [m.record_key for m in ms]


def draw(m):
  return None if m.rng is None else tuple(int(v) for v in m.rng.integers(0, 2**62, 2))


def out_of_range(s, n, ctx):
  for i in (-1, n, n + 1, n + 100):
    try:
      s[i]
    except IndexError:
      continue
    raise Violation(f"{ctx}: index {i} outside [0, {n}) is accepted")


def explore(res, name, sizes):
  import grain
  from grain import samplers
  from grain._src.core import sharding
  for n, c in sizes:
    opts = [sharding.ShardOptions(i, c, d) for d in (False, True) for i in range(c)]
    groups = [[o for o in opts if o.drop_remainder == d] for d in (False, True)]
    if c == 1:
      groups.append([sharding.NoSharding()])
    for group in groups:
      drop = group[0].drop_remainder
      even = n % c == 0 or drop
      # --- sequential
      for seed in (None, 0, 5):
        for o in group:
          s = samplers.SequentialSampler(num_records=n, shard_options=o, seed=seed)
          ctx = f"{s!r} seed={seed}"
          m = n // c * c if drop else n
          res.executions += 1
          res.distinct += n > 1
          if len(s) != m:
            raise Violation(f"{ctx}: length {len(s)} instead of {m}")
          ms = read(s, m)
          if [(x.index, x.record_key) for x in ms] != [(i, i) for i in range(m)]:
            raise Violation(f"{ctx}: {keys(ms)}")
          out_of_range(s, m, ctx)
          check_rng(ms, read(s, m), seed, ctx)
      # --- index sampler
      for shuffle, seed in ((False, None), (False, 3), (True, 0), (True, 3), (True, 2**32 - 1)):
        for epochs in (1, 2, 3, None):
          res.executions += 1
          res.distinct += n > 1
          ss = [samplers.IndexSampler(num_records=n, shard_options=o, shuffle=shuffle,
                                      num_epochs=epochs, seed=seed) for o in group]
          ctx = f"{ss[0]!r} over {len(group)} shards"
          ne = epochs or 4
          per_epoch = n // c * c if drop else n
          total = ne * per_epoch
          if epochs is not None:
            for s in ss:
              if len(s) != total:
                raise Violation(f"{ctx}: length {len(s)} instead of {total}")
              out_of_range(s, total, ctx)
          elif any(len(s) < 2**40 for s in ss):
            raise Violation(f"{ctx}: not endless")
          if per_epoch == 0:
            continue
          # Shard i serves the global indices congruent to i.
          out = {}
          empty = [n // c + (i < n % c) == 0 for i in range(c)]
          for i, s in enumerate(ss):
            idx = [g for g in range(total) if g % c == group[i].shard_index]
            if empty[group[i].shard_index] and not drop:
              # Reading a shard without records.
              for g in idx:
                try:
                  m = s[g]
                except ZeroDivisionError:
                  # The listed finding; anything else is not.
                  res.violation("empty shard", EMPTY + f" ({ctx})", {"case": name})
                else:
                  raise Violation(f"{ctx}: shard {i} has no records but delivers {m}")
              continue
            ms = [s[g] for g in idx]
            if [m.index for m in ms] != idx:
              raise Violation(f"{ctx}: shard {i} reports indices {[m.index for m in ms]}")
            check_rng(ms, [s[g] for g in idx], seed, ctx, all_shards=True)
            out[i] = ms
          a, = {tuple(sorted((group[i].shard_index, tuple(keys(ms)))
                             for i, ms in out.items()))}
          # Epoch by epoch over all shards.
          for e in range(ne):
            got = []
            for i, ms in out.items():
              sh = group[i].shard_index
              per = n // c + (sh < n % c and not drop)
              got += keys(ms)[e * per:(e + 1) * per]
              start = n // c * sh + (min(sh, n % c) if not drop else 0)
              own = set(range(start, start + per))
              if not set(keys(ms)[e * per:(e + 1) * per]) <= own:
                raise Violation(f"{ctx}: shard {sh} reads foreign records"
                                f" {keys(ms)[e * per:(e + 1) * per]} in epoch {e}")
              chunk = keys(ms)[e * per:(e + 1) * per]
              if len(set(chunk)) != len(chunk):
                raise Violation(f"{ctx}: shard {sh} repeats records in epoch {e}: {chunk}")
              if not shuffle and chunk != list(range(start, start + per))[:len(chunk)]:
                raise Violation(f"{ctx}: shard {sh} reads out of order: {chunk}")
            want = list(range(per_epoch))
            if even or ne == 1:
              if sorted(got) != want:
                raise Violation(f"{ctx}: epoch {e} delivers {sorted(got)}")
              if not shuffle:
                for i, ms in out.items():
                  per = n // c + (group[i].shard_index < n % c and not drop)
                  k = keys(ms)[e * per:(e + 1) * per]
                  if k != sorted(k):
                    raise Violation(f"{ctx}: shard {i} out of order: {k}")
            elif epochs is not None:
              if sorted(got) != want and not any(empty):
                res.violation("uneven epochs", UNEVEN + f" ({ctx})", {"case": name})
              if len(set(got)) != len(got):
                raise Violation(f"{ctx}: epoch {e} repeats records: {sorted(got)}")
            else:
              # Endless: every shard's own epochs are complete.
              if not any(empty) and e < ne - 1 and c == 1 and sorted(got) != want:
                raise Violation(f"{ctx}: epoch {e} delivers {sorted(got)}")
          # Equal samplers agree, different epochs are shuffled differently.
          again = [samplers.IndexSampler(num_records=n, shard_options=o, shuffle=shuffle,
                                         num_epochs=epochs, seed=seed) for o in group]
          for i, ms in out.items():
            idx = [m.index for m in ms]
            if keys([again[i][g] for g in reversed(idx)])[::-1] != keys(ms):
              raise Violation(f"{ctx}: order depends on access or instance")
            per = n // c + (group[i].shard_index < n % c and not drop)
            if shuffle and per >= 16 and ne > 1:
              k = keys(ms)
              if k[:per] == k[per:2 * per] or k[:per] == sorted(k[:per]):
                raise Violation(f"{ctx}: shuffled epochs are equal or unshuffled")
    # Independence of generators from sharding.
    if n >= 6:
      ref = {m.index: draw(m) for m in read(samplers.IndexSampler(n, seed=9, num_epochs=2, shuffle=True), 2 * n)}
      for o in group:
        s = samplers.IndexSampler(n, shard_options=o, seed=9, num_epochs=2, shuffle=True)
        for g in range(o.shard_index, len(s), c):
          if draw(s[g]) != ref[g]:
            raise Violation(f"random generator of index {g} depends on sharding {o}")
      if len(set(ref.values())) != len(ref):
        raise Violation("two elements share a generator")
  for bad in (dict(num_records=0), dict(num_records=-1), dict(num_records=3, num_epochs=0),
              dict(num_records=3, shuffle=True), dict(num_records=3, seed=-1),
              dict(num_records=3, seed=2**32)):
    try:
      samplers.IndexSampler(**bad)
    except ValueError:
      continue
    raise Violation(f"IndexSampler accepts {bad}")
  res.samples.append(f"{name}: (records, shards) {sizes[:6]}")


def check_rng(ms, again, seed, ctx, all_shards=False):
  a, b = [draw(m) for m in ms], [draw(m) for m in again]
  if a != b:
    raise Violation(f"{ctx}: generators differ between two reads")
  if seed is None:
    if any(x is not None for x in a):
      raise Violation(f"{ctx}: generators without a seed")
  elif len(set(a)) != len(a) or any(x is None for x in a):
    raise Violation(f"{ctx}: generators missing or shared between elements")
