"""I01: the index shuffle is a bijection on 0..max_index for every length and seed."""
from mc.report import Violation

LEVEL = "exploration"
RULE = ("one evaluation = one call of the shuffle; complete ranges 0..max for every"
        " max up to a bound and for all powers of two +-1 beyond it, by seeds and"
        " rounds; for larger maxima all indices with at most two bits set or missing,"
        " next to the ends. Non-trivial: ranges of more than one index")
SEEDS = (0, 1, 42, 2**31, 2**32 - 1)


def cases(tier):
  top = 300 if tier == "quick" else 1500
  out = [(f"small{i}", "full", list(range(i, top, 16)), SEEDS, (4, 6, 10)) for i in range(16)]
  kmax = 18 if tier == "quick" else 22
  big = []
  for k in range(9, kmax + 1):
    for d in (-2, -1, 0, 1):
      big.append(2**k + d)
  big += [1000, 4095 * 3, 65535 * 2, 100_003, 2**16 + 2**15]
  for m in sorted(big, reverse=True):
    out.append((f"full{m}", "full", [m], (0, 2**32 - 1) if m > 5000 else SEEDS, (4,)))
  for k in range(17, 64):
    out.append((f"sparse{k}", "sparse", [2**k - 2, 2**k - 1, 2**k, 2**k + 1, 3 * 2**(k - 1)], (0, 7, 2**32 - 1), (4, 8)))
  return out


def sparse_points(m):
  bits = [1 << b for b in range(64) if (1 << b) <= m]
  pts = {0, m}
  for a in bits:
    pts.update((a, a - 1, m - a, m ^ a))
    for b in bits:
      pts.update((a | b, m - (a | b), m & ~(a | b)))
  return sorted(p for p in pts if 0 <= p <= m)


def explore(res, name, kind, maxima, seeds, rounds):
  from grain.experimental import index_shuffle as f
  for m in maxima:
    if m >= 2**63:
      continue
    for s in seeds:
      for r in rounds:
        pts = range(m + 1) if kind == "full" else sparse_points(m)
        out = [f(i, max_index=m, seed=s, rounds=r) for i in pts]
        res.executions += len(out)
        res.distinct += len(out) if m else 0
        bad = None
        if not all(0 <= v <= m for v in out):
          i = next(i for i, v in zip(pts, out) if not 0 <= v <= m)
          bad = f"index {i} is mapped outside the range"
        elif len(set(out)) != len(out):
          first = {}
          for i, v in zip(pts, out):
            if v in first:
              bad = f"indices {first[v]} and {i} are both mapped to {v}"
              break
            first[v] = i
        elif any(f(i, max_index=m, seed=s, rounds=r) != v
                 for i, v in list(zip(pts, out))[::max(1, len(out) // 64)]):
          bad = "two calls disagree"
        if bad:
          res.violation(f"{name}: not a permutation",
                        f"index_shuffle with max_index={m} seed={s} rounds={r}: {bad}",
                        {"case": name, "max_index": m, "seed": s, "rounds": r})
          return
    # Seeds matter: somewhere two seeds disagree (not for tiny ranges).
  if kind == "full" and max(maxima) >= 200:
    m = max(maxima)
    if all(f(i, max_index=m, seed=0, rounds=4) == f(i, max_index=m, seed=1, rounds=4)
           for i in range(min(m, 500))):
      raise Violation(f"seeds 0 and 1 give the same order for max_index={m}")
  res.samples.append(f"{name}: maxima {maxima[:3]}.. seeds {seeds} rounds {rounds}")
