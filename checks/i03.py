"""I03: window shuffling, of random-access datasets and of streams."""
from mc import report
from mc.report import Violation

LEVEL = "exploration"
RULE = ("one evaluation = one (length, window size, seed) dataset read whole, over two"
        " epochs for random access; every length and window size up to the bounds."
        " Non-trivial: windows of more than one element")
SEEDS = (0, 1, 11, 2**31 - 1, 2**32 - 3, 2**32 - 2, 2**32 - 1)


def cases(tier):
  top = 22 if tier == "quick" else 60
  ls = [(n, w) for n in range(0, top) for w in list(range(1, min(n, 12 if tier == "quick" else 40) + 3)) + [n + 7]]
  ls += [(100, 32), (130, 64), (300, 256), (257, 128)]
  return report.chunked(sorted(set(ls)), 16, "sizes")


def windows(n, w):
  return [range(i, min(i + w, n)) for i in range(0, n, w)]


def explore(res, name, sizes):
  import grain
  M, e = grain.MapDataset, grain.experimental
  ro = grain.ReadOptions(num_threads=0, prefetch_buffer_size=0)
  for n, w in sizes:
    differ = 0
    for seed in SEEDS:
      ctx = f"length {n} window {w} seed {seed}"
      data = list(range(500, 500 + n))

      def it_out(values, seed=seed):
        return list(e.WindowShuffleIterDataset(
            M.source(values).to_iter_dataset(ro), window_size=w, seed=seed))

      out = it_out(data)
      res.executions += 1
      res.distinct += n > 1 and w > 1
      if len(out) != n:
        raise Violation(f"{ctx}: stream of {len(out)} elements: {out}")
      for win in windows(n, w):
        got = [out[i] - 500 for i in win]
        if sorted(got) != list(win):
          raise Violation(f"{ctx}: stream window {win} gave {got}")
      if it_out(data) != out or [v - 200 for v in it_out([v + 200 for v in data])] != out:
        raise Violation(f"{ctx}: the order of the stream is not fixed")
      # The order in a window depends on seed and window number alone, not on
      # what comes after it.
      if n > w and it_out(data[:w]) != out[:w]:
        raise Violation(f"{ctx}: first window's order depends on later data")
      differ += out != data
      if n == 0:
        continue
      ds = e.WindowShuffleMapDataset(M.source(data), window_size=w, seed=seed)
      res.executions += 1
      if len(ds) != n:
        raise Violation(f"{ctx}: length {len(ds)}")
      for ep in range(3):
        mout = [ds[ep * n + i] for i in range(n)]
        for win in windows(n, w):
          got = [mout[i] - 500 for i in win]
          if sorted(got) != list(win):
            raise Violation(f"{ctx}: random-access window {win} in epoch {ep} gave {got}")
        differ += mout != data
      ds2 = e.WindowShuffleMapDataset(M.source(data), window_size=w, seed=seed)
      rev = [ds2[i] for i in reversed(range(2 * n))][::-1]
      if rev != [ds[i] for i in range(2 * n)]:
        raise Violation(f"{ctx}: random-access order is not fixed")
      if ds._getitems(list(range(2 * n))) != rev:
        raise Violation(f"{ctx}: batched read differs")
      if list(ds.to_iter_dataset(ro)) != rev[:n]:
        raise Violation(f"{ctx}: iteration differs from indexing")
    if n >= 8 and w >= 8 and not differ:
      raise Violation(f"length {n} window {w}: no seed shuffles anything")
    if n >= 60 and w >= 30:
      # Windows of one dataset are shuffled differently from each other.
      out = list(e.WindowShuffleIterDataset(
          M.source(list(range(n))).to_iter_dataset(ro), window_size=w, seed=1))
      a, b = out[:w], [v - w for v in out[w:2 * w]]
      if a == b:
        raise Violation(f"length {n} window {w}: two windows have the same order")
  res.samples.append(f"{name}: (length, window) {sizes[:6]}")
