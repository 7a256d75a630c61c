"""I04: splitting examples over shards."""
from mc import report
from mc.report import Violation

LEVEL = "exploration"
RULE = ("one evaluation = one shard of one (examples, shards, drop_remainder) split;"
        " every number of examples and shards up to the bound and large numbers near"
        " multiples of the shard count. Non-trivial: at least two shards")


def cases(tier):
  top = 130 if tier == "quick" else 700
  ns = list(range(top)) + [10**6, 10**6 + 1, 2**31 - 1, 2**31, 2**32 + 1, 2**53 + 1, 2**62 - 1]
  return report.chunked(ns, 16, "examples")


def explore(res, name, ns):
  from grain._src.core import sharding
  import grain
  for n in ns:
    counts = list(range(1, 66)) + [97, 128, 129] if n < 10**5 else [1, 2, 3, 7, 8, 1000, 4096]
    for c in counts:
      for drop in (False, True):
        iv = []
        for i in range(c):
          o = sharding.ShardOptions(shard_index=i, shard_count=c, drop_remainder=drop)
          iv.append(sharding.even_split(n, o))
          res.executions += 1
          res.distinct += c > 1
        ctx = f"{n} examples over {c} shards drop_remainder={drop}: {iv[:8]}"
        pos = 0
        for a, b in iv:
          if a != pos or b < a:
            raise Violation(f"{ctx}: not contiguous at {pos}")
          pos = b
        sizes = [b - a for a, b in iv]
        if drop:
          if len(set(sizes)) != 1 or not 0 <= n - pos < c:
            raise Violation(f"{ctx}: sizes {set(sizes)}, {n - pos} dropped")
        elif pos != n or max(sizes) - min(sizes) > 1:
          raise Violation(f"{ctx}: covers {pos}, sizes {set(sizes)}")
  for i, c in ((-1, 3), (3, 3), (4, 3), (0, 0), (0, -1)):
    try:
      sharding.ShardOptions(i, c)
    except ValueError:
      continue
    raise Violation(f"shard {i} of {c} is accepted")
  o = sharding.NoSharding()
  if sharding.even_split(7, o) != (0, 7):
    raise Violation("NoSharding splits")
  for drop in (False, True):
    o = sharding.ShardByJaxProcess(drop_remainder=drop)
    if (o.shard_index, o.shard_count, o.drop_remainder) != (0, 1, drop):
      raise Violation(f"ShardByJaxProcess in a single process: {o}")
  # Several JAX processes, as reported by the accelerator library.
  import jax
  old = jax.process_index, jax.process_count
  try:
    for c in (1, 2, 5):
      for i in range(c):
        jax.process_index, jax.process_count = (lambda i=i: i), (lambda c=c: c)
        o = sharding.ShardByJaxProcess(drop_remainder=True)
        if (o.shard_index, o.shard_count, o.drop_remainder) != (i, c, True):
          raise Violation(f"ShardByJaxProcess as process {i} of {c}: {o}")
  finally:
    jax.process_index, jax.process_count = old
  res.samples.append(f"{name}: {ns[:6]} examples")
