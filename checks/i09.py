"""I09: stream transformations equal their list semantics, alone and stacked."""
import itertools

import numpy as np

from mc import catalog as cat
from mc import hist
from mc import pipes
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of all stacks of stream transformations up to a"
             " depth, each run on the real code against a plain-list model")
RULE = ("one evaluation = one pipeline (source, length, chain of transformations)"
        " read twice, and twice more through two alternating iterators, compared with"
        " the list model; all chains up to the depth bound x all lengths."
        " Non-trivial: the pipeline yields at least one element")

DULL = ("options", "seed", "limit99", "repeat3", "rebatch1drop", "rebatch3", "rebatch3drop",
        "rebatch4", "rebatch4drop")


@cat.Fn
def pad_fn(xs):
  from grain import experimental as e
  return e.batch_and_pad(xs, batch_size=3, pad_value=-1)


def pad_model(xs):
  out = []
  for i in range(0, len(xs), 3):
    c = list(xs[i:i + 3])
    c += [cat.tmap(lambda v: np.full_like(np.asarray(v), -1), c[0])] * (3 - len(c))
    out.append(cat.stack(c))
  return out


def catalog():
  g = cat.g()
  e = g.experimental

  class F(g.transforms.Filter):
    def filter(self, x):
      return cat.num(x) % 2 == 1

  class M(g.transforms.Map):
    def map(self, x):
      return cat.tmap(lambda v: v * 2, x)

  class MI(e.MapWithIndexTransform):
    def map_with_index(self, i, x):
      return cat.tmap(lambda v: v - 7 * i, x)

  t = {k: v for k, v in {**cat.transforms(), **cat.rebatchable(), **cat.ileaves()}.items()
       if v[1] is not None}
  t["fodd_cls"] = (lambda d: d.filter(F()), lambda x: [v for v in x if cat.f_odd(v)])
  t["map_cls"] = (lambda d: d.map(M()), lambda x: [cat.tmap(lambda v: v * 2, v) for v in x])
  t["mapidx_cls"] = (lambda d: d.map_with_index(MI()),
                     lambda x: [cat.tmap(lambda u: u - 7 * i, v) for i, v in enumerate(x)])
  t["limit1"] = (lambda d: e.LimitIterDataset(d, 1), lambda x: x[:1])
  t["rep_limit5"] = (
      lambda d: e.LimitIterDataset(e.RepeatIterDataset(d, None), 5),
      lambda x: (x * 5)[:5])
  t["pad3"] = (lambda d: d.batch(3, batch_fn=pad_fn), pad_model)
  t["zip_self"] = (lambda d: e.ZipIterDataset([d, d], strict=True),
                   lambda x: [(v, v) for v in x])
  t["zip_first"] = (lambda d: e.ZipIterDataset([cat.gen_src(3, 80), d], strict=False),
                    lambda x: list(zip(range(80, 83), x)))
  t["apply"] = (lambda d: e.apply_transformations(d, [M(), F()]),
                lambda x: [w for w in (cat.tmap(lambda u: u * 2, v) for v in x) if cat.f_odd(w)])
  t["pipe"] = (lambda d: d.pipe(lambda s: s.filter(F()).map(M())),
               lambda x: [cat.tmap(lambda u: u * 2, v) for v in x if cat.f_odd(v)])
  return t


def ok(chain):
  if not pipes.well_formed(chain):
    return False
  ragged = ("batch2", "batch3fn", "rebatch1", "rebatch2", "rebatch3", "rebatch4", "ffd")
  for i, c in enumerate(chain):
    if c in ("batch2", "batch2drop", "pad3") or c.startswith("rebatch"):
      if any(p in ragged for p in chain[:i]) and not c.startswith("rebatch"):
        return False
      # Elements of one mixture are not uniform.
    if any(p.startswith("interleave") for p in chain[:i]) and (
        c.startswith(("batch2", "pad3", "rebatch"))) and any(
            not p.startswith(("map", "filter", "fodd", "limit", "repeat", "options",
                              "seed", "cache", "interleave", "rep_", "flatmap", "apply", "pipe"))
            for p in chain[:i]):
      return False
  return True


def chains(tier):
  names = sorted(catalog())
  short = [n for n in names if n not in DULL]
  d3 = 3 if tier == "quick" else 5
  ns = range(8) if tier == "quick" else range(11)
  for s in ("src", "gen", "mfilter"):
    for n in ns:
      yield s, n, ()
      for c in names:
        if ok((c,)):
          yield s, n, (c,)
  for a, b in itertools.product(names, names):
    if ok((a, b)):
      for n in ns if tier != "quick" else (0, 1, 2, 3, 4, 5, 7):
        yield "src", n, (a, b)
      if tier != "quick":
        for n in range(6):
          yield "gen", n, (a, b)
  for c in itertools.product(short, repeat=3):
    if ok(c):
      for n in ((4,) if tier == "quick" else (0, 1, 2, 3, 5)):
        yield "src", n, c


def label(p):
  if p[0] == "zip":
    return f"zip{p[1]} strict={p[2]}"
  return f"{p[0]}({p[1]})" + "".join(">" + c for c in p[2])


def cases(tier):
  ps = list(dict.fromkeys(chains(tier)))
  k = 32 if tier == "quick" else 256
  zips = [("zip", ls, strict) for w in range(1, 5 if tier == "quick" else 6)
          for ls in itertools.product(range(4 if w < 4 or tier != "quick" else 3), repeat=w)
          for strict in (True, False)]
  return [(f"chunk{i}", ps[i::k]) for i in range(k)] + [("zips", zips)]


def zips(res, p):
  """Zipping any number of streams of any lengths is Python's zip."""
  _, ls, strict = p
  e = cat.g().experimental
  end = None
  want = []
  it = zip(*[range(10 * i, 10 * i + n) for i, n in enumerate(ls)], strict=strict)
  try:
    for x in it:
      want.append(x)
  except ValueError:
    end = ValueError
  for make_src in (cat.src, cat.gen_src):
    got = []
    how = None
    it = iter(e.ZipIterDataset([make_src(n, 10 * i) for i, n in enumerate(ls)], strict=strict))
    try:
      for _ in range(len(want) + 2):
        got.append(next(it))
    except StopIteration:
      pass
    except ValueError:
      how = ValueError
    if (got, how) != (want, end):
      raise Violation(f"gives {got} and ends with {how}, Python's zip gives {want} and {end}")
    res.executions += 1
  res.distinct += 1


def make(p):
  t = catalog_cached()
  d = pipes.sources()[p[0]](p[1])
  m = hist.run_to_end(iter(pipes.sources()[p[0]](p[1])))
  if p[0] == "mfilter":
    xs = [v for v in range(p[1] + p[1] // 2 + 1) if v % 3 != 1]
    if m != xs:
      raise Violation(f"filtered source yields {m}, expected {xs}")
  else:
    xs = list(range(p[1]))
    if m != xs:
      raise Violation(f"source yields {m}, expected {xs}")
  for c in p[2]:
    d = t[c][0](d)
    xs = list(t[c][1](list(xs)))
  return d, xs


_T = None


def catalog_cached():
  global _T
  if _T is None:
    _T = catalog()
  return _T


def explore(res, name, ps):
  for p in ps:
    try:
      with hang_guard(60):
        one(res, p)
    except Violation as e:
      res.violation(label(p), f"{label(p)}: {e}", {"case": name, "pipeline": label(p)})
    except Hang as e:
      res.violation(label(p), f"{label(p)}: does not terminate: {e}", {"case": name})
    except Exception as e:  # pylint: disable=broad-except
      import traceback
      res.violation(label(p), f"{label(p)}: raised {type(e).__name__}: {e}\n"
                    + traceback.format_exc()[-1500:], {"case": name, "pipeline": label(p)})
  res.samples.append(f"{name}: " + ", ".join(label(p) for p in ps[-2:]))


def one(res, p):
  if p[0] == "zip":
    return zips(res, p)
  d, xs = make(p)
  want = [vals.norm(v) for v in xs]
  lim = len(want) + 3
  for attempt in (1, 2):
    it = iter(d)
    got = hist.run_to_end(it, lim)
    if got != want:
      raise Violation(f"pass {attempt} gives {str(got)[:700]}, the list model gives"
                      f" {str(want)[:700]}")
    for _ in range(2):
      try:
        v = next(it)
      except StopIteration:
        continue
      raise Violation(f"yields {v} after its end")
  its = [iter(d), iter(d)]
  got = [[], []]
  live = [0, 1]
  k = 0
  while live:
    k += 1
    for j in list(live):
      try:
        for _ in range(1 + (j + k) % 2):
          got[j].append(vals.norm(next(its[j])))
      except StopIteration:
        live.remove(j)
  if got != [want, want]:
    raise Violation(f"two alternating iterators give {str(got)[:700]} instead of"
                    f" {str(want)[:700]}")
  res.executions += 1
  res.distinct += bool(want)
