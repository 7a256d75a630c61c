"""I08: reading many elements at once equals reading them one by one."""
import itertools

from checks import i07
from mc import catalog as cat
from mc import mapds
from mc import vals
from mc.report import Violation

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of all stacks of random-access transformations up to"
             " a depth and of index lists, batched reads compared with single reads on the"
             " real code")
RULE = ("one evaluation = one pipeline x index list given to _getitems on a fresh pipeline;"
        " all chains up to the depth bound, all index lists of length 2 over three epochs"
        " and fixed longer ones. Non-trivial: the list is not one element")


def extra():
  g = cat.g()
  e = g.experimental
  MD = g.MapDataset
  t = dict(mapds.ops())
  t["shuffle"] = (lambda d: d.shuffle(seed=3), None)
  t["wshuffle"] = (lambda d: e.WindowShuffleMapDataset(d, window_size=2, seed=1), None)
  t["random"] = (lambda d: d.random_map(cat.m_rand, seed=2), None)
  t["mix"] = (lambda d: MD.mix([d, MD.source([70, 71, 72, 73])], [1, 2]), None)
  t["mix3"] = (lambda d: MD.mix([MD.source([80]), d.filter(cat.f_odd), d], [0.2, 0.5, 0.3]), None)
  return t


DULL = ("repeat1", "repeat3", "filterT", "mapT", "indexT", "slice(1,9)", "[-2:]", "[:-1]",
        "picktwice", "concat3", "seed")


def chains(tier):
  names = sorted(extra())
  short = [n for n in names if n not in DULL]
  for s in ("native", "list", "range", "custom"):
    for n in range(1, 5):
      yield s, n, ()
      for c in names:
        yield s, n, (c,)
  for a, b in itertools.product(names, names):
    for n in (1, 2, 3, 5):
      yield "native", n, (a, b)
    yield "list", 3, (a, b)
  for c in itertools.product(short, repeat=3):
    yield "native", 3, c
    if tier != "quick":
      yield "native", 4, c
      yield "list", 2, c


def ok(c):
  return mapds.well_formed(c)


def cases(tier):
  ps = [p for p in dict.fromkeys(chains(tier)) if ok(p[2])]
  k = 32 if tier == "quick" else 256
  return [(f"chunk{i}", ps[i::k]) for i in range(k)]


_O = None


def make(p):
  global _O
  if _O is None:
    _O = extra()
  d, _ = mapds.sources()[p[0]](p[1])
  for c in p[2]:
    d = _O[c][0](d)
  return d


def explore(res, name, ps):
  i07.each(res, name, ps, one)


def lists(n, deep):
  r = range(3 * n)
  yield list(r)
  yield list(r)[::-1]
  yield []
  yield [2 * n, 0, n, 0, n, 2 * n, 0]
  yield [i % n for i in range(2 * n + 1)] + [i % n + n for i in range(n)]
  if deep:
    for i in r:
      yield [i]
    yield from map(list, itertools.product(r, r))


def one(res, p):
  try:
    d = make(p)
  except ValueError as e:
    if "length 0" in str(e):
      return  # a mixture of something empty is refused
    raise
  n = len(d)
  if not n:
    return
  single = [vals.norm(d[i]) for i in range(3 * n)]
  for idx in lists(n, len(p[2]) < 2 and n < 5):
    fresh = make(p) if len(p[2]) < 2 else d
    got = [vals.norm(v) for v in fresh._getitems(idx)]
    res.executions += 1
    res.distinct += len(idx) > 1
    if got != [single[i] for i in idx]:
      raise Violation(f"reading {idx} at once gives {str(got)[:400]}, one by one"
                      f" {str([single[i] for i in idx])[:400]}")
  if [vals.norm(d[i]) for i in range(3 * n)] != single:
    raise Violation("elements change after a batched read")
