"""I07: random-access transformations obey their list semantics at every index."""
import itertools

from mc import catalog as cat
from mc import hist
from mc import mapds
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of all stacks of random-access transformations up to"
             " a depth, every index of three epochs read on the real code and compared"
             " with a list model")
RULE = ("one evaluation = one pipeline (source, length, chain of transformations): length,"
        " every index of three epochs and iteration against the list model; all chains up"
        " to the depth bound x all lengths. Non-trivial: at least two elements")
EPOCHS = 3


def chains(tier):
  names = sorted(mapds.ops())
  srcs = ("list", "native", "range", "custom", "nested")
  for s in srcs:
    for n in range(0, 7):
      if n or s != "custom":
        yield s, n, ()
        for c in names:
          if mapds.well_formed((c,)):
            yield s, n, (c,)
  for a, b in itertools.product(names, names):
    if mapds.well_formed((a, b)):
      for n in (0, 1, 2, 3, 4, 5):
        yield "list", n, (a, b)
      yield "range", 4, (a, b)
  for c in itertools.product(names, repeat=3):
    if mapds.well_formed(c):
      for n in ((4,) if tier == "quick" else (1, 2, 3, 5)):
        yield "list", n, c


def label(p):
  return f"{p[0]}({p[1]})" + "".join(">" + c for c in p[2])


def cases(tier):
  ps = list(dict.fromkeys(chains(tier)))
  k = 32 if tier == "quick" else 256
  return [(f"chunk{i}", ps[i::k]) for i in range(k)]


_O = None


def make(p):
  global _O
  if _O is None:
    _O = mapds.ops()
  d, m = mapds.sources()[p[0]](p[1])
  for c in p[2]:
    d, m = _O[c][0](d), _O[c][1](m)
  return d, m


def each(res, name, ps, one):
  for p in ps:
    try:
      with hang_guard(60):
        one(res, p)
    except Violation as e:
      res.violation(label(p), f"{label(p)}: {e}", {"case": name, "pipeline": label(p)})
    except Hang as e:
      res.violation(label(p), f"{label(p)}: does not terminate: {e}", {"case": name})
    except Exception as e:  # pylint: disable=broad-except
      import traceback
      res.violation(label(p), f"{label(p)}: raised {type(e).__name__}: {e}\n"
                    + traceback.format_exc()[-1500:], {"case": name, "pipeline": label(p)})
  res.samples.append(f"{name}: " + ", ".join(label(p) for p in ps[-2:]))


def explore(res, name, ps):
  each(res, name, ps, one)


def one(res, p):
  d, m = make(p)
  if len(d) != m.n:
    raise Violation(f"length {len(d)}, the list has {m.n}")
  res.executions += 1
  res.distinct += m.n > 1
  res.extra["indices_read"] = res.extra.get("indices_read", 0) + EPOCHS * m.n
  want = [vals.norm(m.f(i)) for i in range(EPOCHS * m.n)]
  for i in range(len(want)):
    got = vals.norm(d[i])
    if got != want[i]:
      raise Violation(f"element {i} is {str(got)[:300]}, the list gives {str(want[i])[:300]}"
                      f" (length {m.n})")
  # Reading in another order changes nothing, nor do slices of it.
  for i in list(range(len(want)))[::-2]:
    if vals.norm(d[i]) != want[i]:
      raise Violation(f"element {i} differs when read again")
  if len(p[2]) < 3:
    it = iter(d.to_iter_dataset(cat.ro()))
    got = hist.run_to_end(it, m.n + 3)
    none = vals.norm(None)
    if got != [w for w in want[:m.n] if w != none]:
      raise Violation(f"iterating gives {str(got)[:400]} instead of {str(want[:m.n])[:400]}")
    it = iter(d.to_iter_dataset(cat.ro(), allow_nones=True))
    if hist.run_to_end(it, m.n + 3) != want[:m.n]:
      raise Violation("iterating with empty elements allowed loses elements")
