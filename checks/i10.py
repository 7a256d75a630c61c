"""I10: mixing draws each constituent in order, without repeats, in proportion."""
import collections
import itertools
from fractions import Fraction

from mc import catalog as cat
from mc import hist
from mc import report
from mc.report import Violation

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of mixtures (weights x lengths) on the real code"
RULE = ("one evaluation = one mixture (weights, constituent lengths, random access or"
        " stream), every element and every prefix checked; all combinations within the"
        " bounds. Non-trivial: the mixture has at least two elements")
# Very unequal weights, read further and far out.
STEEP = ((1, 1000), (1000, 1), (1, 50), (3, 997), (0.001, 1), (0.5, 100), (1, 1, 500), (1, 40, 1600),
         (1, 200, 1, 7), (1, 65536))
FAR = (10**4, 10**6, 10**9, 2**31 - 20, 2**32 - 20, 2**45)
FLOATS = (0.1, 0.2, 0.25, 0.3, 0.5, 0.7, 0.9, 1.5, 1 / 3)


def weights(nc, top):
  return itertools.product(range(1, top + 1), repeat=nc)


def cases(tier):
  q = tier == "quick"
  out = []
  for w in weights(2, 7 if q else 11):
    out.append((w, 10 if q else 16))
  for w in itertools.product(FLOATS, repeat=2):
    out.append((w, 9 if q else 13))
  for w in weights(3, 4 if q else 5):
    out.append((w, 4 if q else 6))
  for w in weights(4, 2 if q else 3):
    out.append((w, 3))
  out += [((1,), 5), (None, 6), ((2, 9, 2, 1, 1), 2), ((1, 1, 1, 1, 1, 1), 2)]
  out += [(("steep",) + w, 0) for w in STEEP]
  return report.chunked(out, 32 if q else 128, "weights")


def check_prefixes(seq, w, ctx):
  """In order, no skips, and in proportion at every prefix."""
  nc = len(w)
  total = sum(Fraction(x) for x in w)
  count = [0] * nc
  slack = max(1, nc - 1)
  for k, (i, key) in enumerate(seq):
    if key != count[i]:
      raise Violation(f"{ctx}: position {k} takes element {key} of constituent {i},"
                      f" expected its element {count[i]}: {seq}")
    count[i] += 1
    for j in range(nc):
      d = abs(count[j] - Fraction(w[j]) * (k + 1) / total)
      # Weights are rounded to a hundredth of the smallest.
      if d > slack + Fraction(k + 1, 100):
        raise Violation(f"{ctx}: after {k + 1} elements constituent {j} has {count[j]},"
                        f" its share is {float(Fraction(w[j]) * (k + 1) / total):.2f}")
  return count


def steep(res, w):
  """A mixture with very unequal weights: its beginning, and windows far out."""
  g = cat.g()
  MD = g.MapDataset
  nc = len(w)
  d = MD.mix([MD.range(2**58).map(lambda x, c=c: (c, x)) for c in range(nc)], w)
  low = min(w)
  exact = all((Fraction(x) / Fraction(low)).denominator == 1 for x in w)
  total = sum(Fraction(x) for x in w)
  for start in (0,) + FAR:
    if start and start * max(w) / low > 2**58:
      continue
    seen = {}
    for k in range(start, start + (4000 if not start else 300)):
      i, key = d[k]
      ctx = f"mix {w}: position {k}"
      if key != seen.get(i, key - 1 if start else -1) + 1:
        raise Violation(f"{ctx} takes element {key} of constituent {i} after {seen.get(i)}")
      seen[i] = key
      off = abs(key + 1 - Fraction(w[i]) * (k + 1) / total)
      if off > max(1, nc - 1) + (0 if exact else Fraction(k + 1, 100)):
        raise Violation(f"{ctx} takes element {key} of constituent {i}, whose share is"
                        f" {float(Fraction(w[i]) * (k + 1) / total):.2f}")
      res.executions += 1
    res.distinct += 1


def explore(res, name, chunk):
  g = cat.g()
  MD, ID = g.MapDataset, g.IterDataset
  for w, top in chunk:
    if w and w[0] == "steep":
      try:
        steep(res, w[1:])
      except Violation as e:
        res.violation(f"steep {w[1:]}", str(e), {"case": name})
      continue
    nc = len(w) if w else 2
    eff = w or (1, 1)
    # A long mixture is the reference for where each element comes from.
    big = MD.mix([MD.source([(c, i) for i in range(400)]) for c in range(nc)], w)
    ref = [big[k] for k in range(200)]
    check_prefixes(ref, eff, f"mix {w}")
    for lens in itertools.product(range(1, top + 1), repeat=nc):
      ctx = f"mix {w} of lengths {lens}"
      parts = [[(c, i) for i in range(n)] for c, n in enumerate(lens)]
      d = MD.mix([MD.source(p) for p in parts], w)
      n = len(d)
      got = [d[k] for k in range(n)]
      if got != ref[:n]:
        raise Violation(f"{ctx}: {got} is not the beginning of the longer mixture {ref[:n]}")
      if len(set(got)) != n:
        raise Violation(f"{ctx}: repeats elements within an epoch: {got}")
      W = sum(Fraction(x) for x in eff)
      most = min(Fraction(l) * W / Fraction(x) for l, x in zip(lens, eff))
      if n < most * Fraction(98, 100) - 2:
        raise Violation(f"{ctx}: has only {n} elements, {float(most):.2f} would be possible")
      # The next epoch continues where every constituent left off.
      more = [d[k] for k in range(n, 2 * n)]
      want = [(c, i % lens[c]) for c, i in ref[n:2 * n]]
      if 2 * n <= len(ref) and more != want:
        raise Violation(f"{ctx}: indices {n}..{2 * n} give {more} instead of {want}")
      res.executions += 1
      res.distinct += n > 1
      # The stream mixture ends when the constituent it needs next is exhausted.
      for kind in ("list", "dict") if nc < 4 else ("list",):
        its = [MD.source(p).to_iter_dataset(cat.ro()) for p in parts]
        if kind == "list":
          s = ID.mix(its, w)
        else:
          names = ["b", "a", "c"][:nc]
          s = ID.mix(dict(zip(names, its)), None if w is None else dict(zip(names, w)))
          # Constituents of a mapping are taken in the order of their names.
          order = sorted(range(nc), key=lambda i: names[i])
        it = iter(s)
        got = []
        for _ in range(3 * sum(lens) + 5):
          try:
            got.append(next(it))
          except StopIteration:
            break
        for _ in range(2):
          try:
            raise Violation(f"{ctx} ({kind}): yields {next(it)} after its end")
          except StopIteration:
            pass
        res.executions += 1
        res.distinct += len(got) > 1
        if kind == "dict":
          r = order_ref(order, eff, w, MD, nc)
        else:
          r = ref
        end = next(k for k, (c, i) in enumerate(r) if i >= lens[c])
        if got != r[:end]:
          raise Violation(f"{ctx} ({kind}): yields {got}, expected {r[:end]} and then the end,"
                          f" as {r[end]} does not exist")
    if nc == 2 or w is None or sorted(w) == [1, 2, 3]:
      check_mappings(res, w, eff, nc, MD, ID)
  res.samples.append(f"{name}: weights {[c[0] for c in chunk[:6]]}")


def check_mappings(res, w, eff, nc, MD, ID):
  """Named constituents keep their own weights, in whatever order either is given."""
  names = ["b", "a", "c"][:nc]
  kinds = (dict, collections.OrderedDict, lambda x: collections.defaultdict(list, x))
  for lens in ((3,) * nc, (2, 9, 4)[:nc]):
    for pk, wk in itertools.product(kinds, kinds if w else kinds[:1]):
      for order in itertools.permutations(range(nc)):
        for worder in itertools.permutations(range(nc)) if w else [order]:
          its = [MD.source([(c, i) for i in range(n)]).to_iter_dataset(cat.ro())
                 for c, n in enumerate(lens)]
          ps = pk([(names[i], its[i]) for i in order])
          ws = None if w is None else wk([(names[i], w[i]) for i in worder])
          ctx = f"mix of {list(ps)} of lengths {lens} with weights {ws} ({type(ps).__name__})"
          s = ID.mix(ps, ws)
          it = iter(s)
          states, got = [it.get_state()], []
          for x in it:
            got.append(x)
            states.append(it.get_state())
            if len(got) > 99:
              break
          wants = []
          for o in (order, sorted(range(nc), key=lambda i: names[i])):
            r = order_ref(o, eff, w, MD, nc)
            wants.append(r[:next(k for k, (c, i) in enumerate(r) if i >= lens[c])])
          if got not in wants:
            raise Violation(f"{ctx}: yields {got}, expected {' or '.join(map(str, wants))}")
          for k in (0, len(got) // 2, len(got)):
            it = iter(s)
            next(it, None)
            it.set_state(states[k])
            rest = list(it)
            if rest != got[k:]:
              raise Violation(f"{ctx}: restored after {k} elements continues with {rest},"
                              f" expected {got[k:]}")
          res.executions += 4
          res.distinct += 1
    if w:
      its = {n: MD.range(3).to_iter_dataset(cat.ro()) for n in names}
      good = dict(zip(names, w))
      for bad in ({k: v for k, v in good.items() if k != "b"}, {**good, "z": 1},
                  {("z" if k == "a" else k): v for k, v in good.items()}):
        try:
          got = list(ID.mix(its, bad))
        except Exception:  # pylint: disable=broad-except
          continue
        raise Violation(f"mix of {list(its)} with weights {bad} is accepted and gives {got}")


_REF = {}


def order_ref(order, eff, w, MD, nc):
  key = (tuple(order), eff)
  if key not in _REF:
    d = MD.mix([MD.source([(c, i) for i in range(400)]) for c in order], [eff[c] for c in order])
    _REF[key] = [d[k] for k in range(200)]
  return _REF[key]
