"""The pipelines whose checkpoint histories are explored."""
import functools

from mc import catalog as cat


@functools.cache
def all_transforms():
  g = cat.g()
  e = g.experimental
  t = {**cat.transforms(), **cat.rebatchable(), **cat.packers()}
  t["repeatinf_limit7"] = (
      lambda d: e.LimitIterDataset(e.RepeatIterDataset(d, None), 7), None)
  t["zip3"] = (
      lambda d: e.ZipIterDataset([cat.src(3, 50), d, cat.gen_src(4, 60)], strict=False), None)
  t["mix_gen"] = (
      lambda d: g.IterDataset.mix([cat.gen_src(3, 70), d, cat.src(2, 90)], [1, 3, 1]), None)
  return t


@functools.cache
def sources():
  """name -> f(n) giving an IterDataset of n ints."""
  g = cat.g()
  M = g.MapDataset
  t = {
      "src": cat.src,
      "gen": cat.gen_src,
      "mfilter": lambda n: M.source(list(range(n + n // 2 + 1))).filter(
          cat.f_mod3).to_iter_dataset(cat.ro()),
      "mnones": lambda n: M.source(list(range(n + 1))).filter(
          cat.f_mod3).to_iter_dataset(cat.ro(), allow_nones=True).map(none0),
      "mshuf": lambda n: M.source(list(range(n))).shuffle(seed=5).repeat(2)
               .map_with_index(cat.m_idx).random_map(cat.m_rand, seed=3)
               .to_iter_dataset(cat.ro()),
      "mmix": lambda n: M.mix(
          [M.source(list(range(n))), M.source(list(range(20, 22 + n)))],
          [1, 2]).to_iter_dataset(cat.ro()),
  }
  return t


@cat.Fn
def none0(x):
  return -5 if x is None else x


def build(source, n, chain):
  d = sources()[source](n)
  t = all_transforms()
  for c in chain:
    d = t[c][0](d)
  return d


def names():
  return sorted(all_transforms())


def well_formed(chain):
  for i, c in enumerate(chain):
    if c.startswith("rebatch"):
      # needs rows of arrays
      if i == 0 or not any(p.startswith(("batch2", "rebatch", "ffd", "bfd", "cts"))
                           for p in chain[i - 1:i]):
        return False
    if c.startswith("batch2") and any(
        p in ("batch2", "batch3fn") or p.startswith("rebatch") for p in chain[:i]):
      return False  # ragged
  return True
