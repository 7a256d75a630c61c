"""I02: globally shuffled random-access datasets."""
from mc import report
from mc.report import Violation

LEVEL = "exploration"
RULE = ("one evaluation = one (length, seed, derivation) shuffled dataset read over"
        " several whole epochs; all lengths up to a bound plus powers of two +-1, all"
        " derivations (plain, seeded upstream, sliced, repeated, not reseeded,"
        " batched, mapped, shuffled twice). Non-trivial: at least two elements")
SEEDS = (0, 1, 3, 2**31, 2**32 - 2, 2**32 - 1)


def cases(tier):
  top = 64 if tier == "quick" else 400
  ls = list(range(0, top)) + [127, 128, 129, 255, 256, 257, 1000]
  if tier != "quick":
    ls += [4095, 4096, 4097, 65535, 65536, 65537, 65538]
  else:
    ls += [65537]
  return report.chunked(ls, 24, "lengths")


def perm(values, full, what):
  if sorted(values) != sorted(full):
    miss = sorted(set(full) - set(values))[:5]
    dup = sorted(v for v in set(values) if values.count(v) > 1)[:5] if len(values) < 5000 else "?"
    raise Violation(f"{what}: not every element exactly once: missing {miss},"
                    f" repeated {dup}, got {values[:20]}")


def explore(res, name, lengths):
  import grain
  M = grain.MapDataset
  for n in lengths:
    data = list(range(1000, 1000 + n))
    seeds = SEEDS if n < 300 else (0, 2**32 - 1)
    for seed in seeds:
      ctx = f"length {n} seed {seed}"
      ds = M.source(data).shuffle(seed=seed)
      res.executions += 1
      res.distinct += n > 1
      if len(ds) != n:
        raise Violation(f"{ctx}: shuffling changed the length to {len(ds)}")
      if n == 0:
        continue
      big = n > 2000
      epochs = [[ds[e * n + i] for i in range(n)] for e in range(1 if big else 4)]
      for e, ep in enumerate(epochs):
        perm(ep, data, f"{ctx} epoch {e}")
      if big:
        continue
      again = M.source(data).shuffle(seed=seed)
      if [again[i] for i in range(4 * n)] != sum(epochs, []):
        raise Violation(f"{ctx}: an equal dataset is shuffled differently")
      # Reading in another order changes nothing.
      if [ds[i] for i in reversed(range(2 * n))][::-1] != epochs[0] + epochs[1]:
        raise Violation(f"{ctx}: order depends on the order of access")
      if n >= 20:
        for a in range(4):
          for b in range(a):
            if epochs[a] == epochs[b]:
              raise Violation(f"{ctx}: epochs {b} and {a} are shuffled the same")
        other = M.source(data).shuffle(seed=(seed + 17) % 2**32)
        if [other[i] for i in range(n)] == epochs[0]:
          raise Violation(f"{ctx}: seed {seed + 17} gives the same order")
        if epochs[0] == data:
          raise Violation(f"{ctx}: nothing is shuffled")
      flat = sum(epochs, [])
      # Iterated, repeated, not reseeded.
      for k in (1, 2, 3):
        r = ds.repeat(k)
        res.executions += 1
        if len(r) != k * n or [r[i] for i in range(k * n)] != flat[:k * n]:
          raise Violation(f"{ctx}: repeat({k}) differs from the epochs")
        r = ds.repeat(k, reseed_each_epoch=False)
        res.executions += 1
        if [r[i] for i in range(k * n)] != epochs[0] * k:
          raise Violation(f"{ctx}: repeat({k}) without reseeding does not replay")
      if list(ds.repeat(2).to_iter_dataset(grain.ReadOptions(0, 0))) != flat[:2 * n]:
        raise Violation(f"{ctx}: iteration differs from indexing")
      # Sliced afterwards: the slices partition each epoch.
      for k in (2, 3):
        parts = [ds[i::k] for i in range(k)]
        res.executions += k
        for e in range(3):
          got = []
          for i, p in enumerate(parts):
            m = len(p)
            seg = [p[e * m + j] for j in range(m)] if m else []
            if seg != epochs[e][i::k]:
              raise Violation(f"{ctx}: slice {i}::{k} in epoch {e} is {seg},"
                              f" not {epochs[e][i::k]}")
            got += seg
          perm(got, data, f"{ctx} slices ::{k} epoch {e}")
      # Batched, mapped.
      for k in (2, 3):
        b = ds.batch(k)
        res.executions += 1
        m = len(b)
        for e in range(2):
          got = [int(v) for j in range(m) for v in b[e * m + j]]
          if got != epochs[e]:
            raise Violation(f"{ctx}: batches of {k} in epoch {e} give {got}")
      # Seeded upstream: deterministic, and a permutation too.
      s = [M.source(data).seed(seed).shuffle() for _ in range(2)]
      a, b = ([d[i] for i in range(2 * n)] for d in s)
      res.executions += 2
      if a != b:
        raise Violation(f"{ctx}: ds.seed() gives different orders")
      perm(a[:n], data, f"{ctx} ds.seed()")
      perm(a[n:], data, f"{ctx} ds.seed() epoch 1")
      # Two shuffles.
      d = ds.shuffle(seed=(seed + 5) % 2**32)
      for e in range(2):
        perm([d[e * n + i] for i in range(n)], data, f"{ctx} shuffled twice, epoch {e}")
      # Batched reads.
      idx = [i * 7 % (3 * n) for i in range(3 * n)]
      if ds._getitems(idx) != [flat[i] for i in idx]:
        raise Violation(f"{ctx}: batched read differs")
  import grain
  for bad in (-1, 2**32):
    try:
      grain.MapDataset.range(3).shuffle(seed=bad)
    except ValueError:
      continue
    raise Violation(f"seed {bad} is accepted")
  res.samples.append(f"{name}: lengths {lengths[:6]}")
