"""I16: splitting a pipeline over workers partitions its data, in a fixed order."""
import itertools
import traceback

from mc import catalog as cat
from mc import mapds
from mc import pipes
from mc import report
from mc import shm
from mc import simrun
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of pipelines, lengths, numbers of workers and both ways of"
             " splitting; the real mp_prefetch / multithread_prefetch with simulated worker"
             " processes as tasks of a controlled scheduler, against a model of the shares")
RULE = ("all chains of random access operations up to a depth over every source, all iterator"
        " transformations above every sliceable source, pipelines using a dataset twice; each"
        " split over 1..4 workers, interleaved and sequentially, iterated twice: the output is"
        " the rotation over the workers' shares, and the shares partition the unsplit output")
ASSUMPTIONS = ("workers run under the default schedule (all schedules: S03)",
               "below iterator transformations that depend on more than one element, each worker"
               " transforms its own share, as documented")

pre_boot = simrun.install

BARRIER = ("[", "slice", "pick", "concat", "zip", "select", "mix")


def raw(d):
  return [d[i] for i in range(len(d))]


def split(n, i, w):
  a, r = divmod(n, w)
  s = a * i + min(i, r)
  return s, s + a + (i < r)


def own(m, start, stop):
  """The elements start..stop of every epoch of a model."""
  k = stop - start
  return mapds.M(k, lambda i: m.f(start + i % k + (i // k) * m.n), m.sparse, m.ragged)


def seq_model(source, n, chain, i, w):
  t = mapds.ops()
  m = mapds.sources()[source](n)[1]
  j = max((k + 1 for k, c in enumerate(chain) if c.startswith(BARRIER)), default=0)
  for c in chain[:j]:
    m = t[c][1](m)
  m = own(m, *split(m.n, i, w))
  for c in chain[j:]:
    m = t[c][1](m)
  return m


def build(source, n, chain):
  d = mapds.sources()[source](n)[0]
  t = mapds.ops()
  for c in chain:
    d = d.shuffle(seed=3) if c == "shuffle" else (
        cat.g().experimental.WindowShuffleMapDataset(d, window_size=3, seed=2)
        if c == "window" else
        cat.g().MapDataset.mix([d, cat.g().MapDataset.source([60, 61, 62])], [2, 1])
        if c == "mix" else t[c][0](d))
  return d


def spread(d, w, seq, how, buf=1):
  g = cat.g()
  if how == "threads":
    from grain._src.python.dataset.transformations import prefetch
    return prefetch.multithread_prefetch(d, w, buf, sequential_slice=seq)
  return d.mp_prefetch(g.MultiprocessingOptions(num_workers=w, per_worker_buffer_size=buf),
                       sequential_slice=seq)


def collect(d, limit=400):
  out = []
  it = iter(d)
  for x in it:
    out.append(vals.norm(x))
    if len(out) > limit:
      break
  it.close()
  return out


def flat(xs):
  out = []
  def f(v):
    if isinstance(v, tuple) and v and v[0] == "arr":
      out.extend(v[3])
    elif isinstance(v, tuple):
      for u in v[1] if v and v[0] in ("tuple", "list") else v:
        f(u)
    elif v is not None:
      out.append(v)
  for x in xs:
    f(x)
  return sorted(out)


def norms(xs):
  return [vals.norm(x) for x in xs if x is not None]


def map_case(res, c):
  source, n, chain, w, seq, how = c
  full = raw(build(source, n, chain))
  exact = True
  if w == 1:
    shares = [norms(full)]
  elif not seq:
    shares = [norms(full[i::w]) for i in range(w)]
  elif not {"shuffle", "window", "mix"} & set(chain):
    shares = [norms(raw_model(seq_model(source, n, chain, i, w))) for i in range(w)]
    if not any(k.startswith("index") or "drop" in k for k in chain):
      if flat(sum(shares, [])) != flat(norms(full)):
        raise AssertionError(f"the model of {c} is no partition")
  else:
    exact = False
  for run in range(2 if exact and n == 3 else 1):
    if not exact and any(k.startswith("index") or "drop" in k or k == "zip_idx" for k in chain):
      return  # depends on positions or drops parts: what a share gives is not a part
    got = collect(spread(build(source, n, chain).to_iter_dataset(cat.ro()), w, seq, how))
    res.executions += 1
    res.transitions += len(got)
    if exact:
      want = cat.interleave_model([list(s) for s in shares], w)
      if got != want:
        raise Violation(f"run {run}: {got} instead of {want}, from the unsplit"
                        f" {norms(full)}")
    elif flat(got) != flat(norms(full)):
      raise Violation(f"{got} is not a partition of {norms(full)}")


def raw_model(m):
  return [m.f(i) for i in range(m.n)]


# --- iterator transformations


class Sliced:
  """cat.src and cat.gen_src of one worker's share."""

  def __init__(self, sl, seq):
    self.sl, self.seq = sl, seq

  def pick(self, n):
    if self.sl is None:
      return slice(None)
    return slice(*split(n, *self.sl)) if self.seq else slice(self.sl[0], None, self.sl[1])

  def src(self, n, off=0):
    d = cat.g().MapDataset.source(list(range(off, off + n))[self.pick(n)])
    return d.to_iter_dataset(cat.ro())

  def gen(self, n, off=0):
    # User sources get the slice whatever the way of splitting.
    sl = slice(None) if self.sl is None else slice(self.sl[0], None, self.sl[1])
    return cat.user_source_cls()(list(range(off, off + n))[sl])


ORIG = (cat.src, cat.gen_src)


def with_sources(s, f):
  cat.src, cat.gen_src = s.src, s.gen
  try:
    return f()
  finally:
    cat.src, cat.gen_src = ORIG


def iter_sources(s):
  g = cat.g()
  E = g.experimental

  def inter(n):
    ds = [g.MapDataset.source([10 * k + j for j in range(k % 3)]).to_iter_dataset(cat.ro())
          for k in range(n)]
    if s.sl is not None:
      ds = ds[s.sl[0]::s.sl[1]]
    return E.InterleaveIterDataset(ds, cycle_length=2, iter_buffer_size=0)
  return {
      "src": s.src,
      "gen": s.gen,
      "twice": lambda n: (lambda d: E.ZipIterDataset([d, d.map(cat.m_inc)]))(s.src(n)),
      "mixtwice": lambda n: (lambda d: g.IterDataset.mix([d, d.map(cat.m_inc)], [1, 1]))(s.src(n)),
      "maptwice": lambda n: map_twice(s, n),
      "ziptwo": lambda n: E.ZipIterDataset([s.src(n), s.src(n, 40)]),
      "interleave": inter,
  }


def map_twice(s, n):
  """Two iterators over one random access dataset."""
  g = cat.g()
  m = g.MapDataset.source(list(range(n))[s.pick(n)]).map(cat.m_inc)
  return g.experimental.ZipIterDataset(
      [m.to_iter_dataset(cat.ro()), m.map(cat.m_inc).to_iter_dataset(cat.ro())])


def iter_case(res, c):
  source, n, chain, w, seq, how = c

  def make(sl):
    s = Sliced(sl, seq)
    def f():
      d = iter_sources(s)[source](n)
      t = pipes.all_transforms()
      for k in chain:
        d = (keyed_repeat(d) if k == "above" else t[k][0](d))
      return d
    return with_sources(s, f)
  if w == 1:
    shares = [collect(make(None))]
  else:
    shares = [collect(make((i, w))) for i in range(w)]
  want = cat.interleave_model([list(s) for s in shares], w)
  d = spread(make(None), w, seq, how)
  got = collect(d)
  again = collect(d)
  res.executions += 2
  res.transitions += len(got) + len(again)
  if got != want:
    raise Violation(f"{got} instead of {want}")
  if again != want:
    raise Violation(f"iterated again {again} instead of {want}")
  if all(k in ("map", "options", "seed") for k in chain):
    full = collect(make(None))
    if source not in ("mixtwice",) and flat(got) != flat(full):
      raise Violation(f"{got} is not a partition of {full}")
  twice = collect(cat.g().experimental.RepeatIterDataset(d, 2))
  res.executions += 1
  if twice != want + want:
    raise Violation(f"repeated {twice} instead of twice {want}")


def keyed_repeat(d):
  return cat.g().experimental.RepeatIterDataset(d, 2)


def configs(tier):
  q = tier == "quick"
  names = list(mapds.ops())
  out = []
  # Every source and operation.
  for s in mapds.sources():
    for ch in [(), *((c,) for c in [*names, "shuffle", "window", "mix"])]:
      for n in (0, 1, 2, 3, 5) if not q else (0, 1, 2, 5) if s == "list" else (3,):
        if n == 0 and not q:
          continue
        for w in (1, 2, 3, 4):
          if q and (w == 1 or w == 4) and (n != 3 or len(ch) > 0 or s != "list"):
            continue
          for seq in (False, True):
            if seq and w > 1 and s == "custom":
              continue  # has nothing to split
            if n == 0 and ch:
              continue
            out.append(("map", s, n, ch, w, seq,
                        "threads" if (n + w + len(out)) % 3 == 0 else "processes"))
  # Chains.
  two = [ch for ch in itertools.product([*names, "shuffle", "mix"], repeat=2)
         if mapds.well_formed(ch)]
  some = {"map", "index", "filter", "flatmap", "[::2]", "[::-1]", "[1:4:2]", "pick", "repeat2",
          "repeat2same", "batch2", "batch2drop", "concat", "zip_self", "select", "shuffle",
          "mix"}
  for k, ch in enumerate(two):
    if q and not set(ch) <= some:
      continue
    for n in (5,) if q else (3, 4, 5):
      for w in (2, 3):
        for seq in (False, True):
          if q and (w == 3) == (k % 2 == 0):
            continue
          out.append(("map", "range" if k % 3 == 2 else "list", n, ch, w, seq,
                      "threads" if k % 2 else "processes"))
  if not q:
    for k, ch in enumerate(itertools.product(sorted(some), repeat=3)):
      if mapds.well_formed(ch):
        out.append(("map", "list", 5, ch, 2, bool(k % 2), "processes"))
  # Iterator transformations.
  ts = [x for x in pipes.names() if not x.startswith(("interleave", "repeatinf"))]
  for s in iter_sources(Sliced(None, False)):
    chains = [(), *((x,) for x in ts if pipes.well_formed((x,)))]
    chains += [("batch2", x) for x in ts if x.startswith("rebatch")]
    for ch in chains:
      if s != "src" and len(ch) and q and ch[0] not in ("map", "filter", "batch2", "limit3",
                                                       "zip", "cache"):
        continue
      if ch and ch[0].startswith(("ffd", "bfd", "cts", "mixdict")) and s != "src":
        continue
      for n in (1, 4, 5) if not q else (5,):
        for w in (1, 2, 3):
          if q and w == 1 and ch:
            continue
          # Random numbers are different in every worker, as documented.
          if w > 1 and any(k.startswith("random_map") for k in ch):
            continue
          for seq in (False, True):
            # The positions of two datasets of different lengths do not match.
            if seq and ch and ch[0] in ("zip", "zip3"):
              continue
            if q and seq and w == 2 and s == "src" and len(ch) > 1:
              continue
            out.append(("iter", s, n, ch, w, seq, "threads" if (n + len(out)) % 3 == 0
                        else "processes"))
  return out


def reslice(res, c):
  """A share is taken of the original source, whatever share was taken before."""
  from grain._src.python.dataset.transformations import source
  how, n, step = c
  make = ((lambda: source.RangeMapDataset(5, 5 + n * step, step)) if how == "range"
          else (lambda: source.SourceMapDataset(list(range(n)))))
  want = raw(make())
  cuts = [(i, w) for w in range(1, 5) for i in range(w)]
  for a in cuts:
    for b in cuts:
      d = make()
      for i, w in (a, b, a):
        d.set_slice(slice(i, None, w), sequential_slice=True)
        start, stop = split(len(want), i, w)
        got = (len(d), raw(d), [d[k] for k in range(len(d), 2 * len(d))])
        exp = want[start:stop]
        if got != (len(exp), exp, exp):
          raise Violation(f"share {i} of {w} of {want} (shares {a}, {b}, {a} in turn) is {got}")
      res.executions += 1


def label(c):
  if c[0] == "reslice":
    return f"shares of a {c[1]} of {c[2]}, step {c[3]}"
  kind, s, n, ch, w, seq, how = c
  return (f"{kind} {s}({n}) {'+'.join(ch)} over {w} {how}"
          f"{' sequentially' if seq else ''}")


def cases(tier):
  again = [("reslice", "range", n, step) for n in range(7) for step in (1, 2, 3, -1)]
  again += [("reslice", "list", n, 1) for n in range(7)]
  return (report.chunked(configs(tier), 96 if tier == "quick" else 256, "splits")
          + [("reslice", again)])


def explore(res, name, cs):
  shm.install()
  for c in cs:
    shm.reset()
    f = {"map": map_case, "iter": iter_case, "reslice": reslice}[c[0]]
    # An operation may refuse to be applied.
    if c[0] == "map":
      try:
        build(c[1], c[2], c[3])
      except ValueError:
        continue
    try:
      with hang_guard(60):
        simrun.call(lambda: f(res, c[1:]))
        res.states += 1
        res.distinct += 1
    except Violation as e:
      res.violation(label(c), f"{label(c)}: {e}", {"case": name, "config": label(c)})
    except Hang as e:
      res.violation(label(c), f"{label(c)}: does not terminate: {e}", {"case": name})
    except AssertionError:
      raise
    except Exception as e:  # pylint: disable=broad-except
      tb = "".join(traceback.format_exc().splitlines(True)[-12:])
      res.violation(label(c), f"{label(c)}: raises {type(e).__name__}: {e}\n{tb}",
                    {"case": name, "config": label(c)})
  res.samples.append(label(cs[0]) if cs else "")
