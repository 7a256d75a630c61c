"""C06: elastic iteration conserves data across changes of the number of hosts."""
import contextlib
import itertools
import json
import os
import shutil
import tempfile

from mc import catalog as cat
from mc import inline
from mc import procs
from mc import report
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all histories of host counts and per-host progress,"
             " every host running the real iterator and the real checkpoint files")
RULE = ("a state is the content of the checkpoint directory and the elements delivered so far;"
        " a transition restores it on every host of some host count, advances each host by any"
        " number of steps and saves; to a fixpoint, so any number of resizes; in every state the"
        " rest read on every host count completes the data exactly once")
ASSUMPTIONS = ("hosts share nothing but the checkpoint directory, so the runs of one host are"
               " explored once and combined",
               "datasets are read once: the number of the pass is not part of shard states",
               "reading ahead happens at once (inline executor) except in the threaded variant")


# --- interleaved datasets -----------------------------------------------------------


def build(kind, lens, cyc):
  g = cat.g()
  e = g.experimental
  buf = 1 if kind == "threads" else 0
  if kind in ("iter", "threads", "map_after"):
    ds = [cat.gen_src(n, 10 * i) if i % 2 else cat.src(n, 10 * i) for i, n in enumerate(lens)]
  elif kind == "map":
    ds = [g.MapDataset.source(list(range(10 * i, 10 * i + n))).map(cat.keep)
          for i, n in enumerate(lens)]
  else:
    ds = g.MapDataset.source(list(enumerate(lens))).map(
        cat.Fn(lambda p: cat.gen_src(p[1], 10 * p[0])))
  d = e.InterleaveIterDataset(ds, cycle_length=cyc, iter_buffer_size=buf)
  if kind == "map_after":
    d = d.map(cat.Fn(lambda x: x + 0)).seed(3)
  return d


class World:
  """Runs hosts of one pipeline, and remembers what they did."""

  def __init__(self, res, c):
    self.res = res
    self.kind, self.lens, self.cyc, self.gbs, self.hosts = c
    self.runs = {}
    self.ds = build(self.kind, self.lens, self.cyc)
    self.all = sorted(10 * i + j for i, n in enumerate(self.lens) for j in range(n))

  def host(self, m, n, h, files):
    """[(elements delivered, files written)] after 0, 1, ... steps of host h of n."""
    if m == n:
      rel = {k: v for k, v in files.items() if k == f"process_{h}-of-{n}.json"}
    else:
      rel = {k: v for k, v in files.items() if k.startswith("shard")
             and int(k[12:-5]) % n == h}
    key = (m == n, n, h, tuple(sorted(rel.items())))
    if key not in self.runs:
      self.runs[key] = self.run(m, n, h, files)
    return self.runs[key]

  def run(self, m, n, h, files):
    from etils import epath
    from grain._src.core import sharding
    from grain._src.python.checkpoint import handler
    from grain._src.python.dataset import elastic_iterator
    tmp = tempfile.mkdtemp(prefix="c06_")
    with contextlib.ExitStack() as stack:
      stack.callback(shutil.rmtree, tmp)
      stack.enter_context(procs.process(h, n))
      it = elastic_iterator.ElasticIterator(
          self.ds, self.gbs, sharding.ShardOptions(shard_index=h, shard_count=n))
      ck = handler.CheckpointHandler()
      if m:
        d = epath.Path(tmp) / "in"
        d.mkdir()
        for k, v in files.items():
          (d / k).write_text(v)
        it = ck.restore(d, it)
        if m != n:
          self.by_hand(files, n, h, it)
      out = []
      got = []
      for i in range(len(self.all) + 2):
        d = epath.Path(tmp) / f"out{i}"
        d.mkdir()
        ck.save(d, it)
        w = {f.name: f.read_text() for f in d.iterdir()}
        out.append((tuple(got), w))
        self.res.transitions += 1
        try:
          x = next(it)
        except StopIteration:
          break
        got += cat.leaves(x)
        if self.gbs and not 0 < len(cat.leaves(x)) <= self.gbs // n:
          raise Violation(f"host {h} of {n} delivered a batch of {cat.leaves(x)}")
      else:
        raise Violation(f"host {h} of {n} does not end: {got}")
      # The state at the end does not depend on having asked beyond the end.
      d = epath.Path(tmp) / "end"
      d.mkdir()
      ck.save(d, it)
      w = {f.name: f.read_text() for f in d.iterdir()}
      out.append((tuple(got), w))
      it.close()
      self.res.executions += 1
      return out

  def by_hand(self, files, n, h, it):
    """The states given as a dict that was JSON (text keys) restore the same."""
    from grain._src.core import sharding
    from grain._src.python.dataset import elastic_iterator
    other = elastic_iterator.ElasticIterator(
        self.ds, self.gbs, sharding.ShardOptions(shard_index=h, shard_count=n))
    states = {k[12:-5]: json.loads(v) for k, v in files.items()
              if k.startswith("shard") and int(k[12:-5]) % n == h}
    # Text order, in which 10 comes before 2.
    other.set_shard_states({k: states[k] for k in sorted(states)})
    a, b = (json.dumps(i.get_shard_states(), sort_keys=True) for i in (it, other))
    other.close()
    if a != b:
      raise Violation(f"host {h} of {n}: the shard states given directly, with text keys,"
                      f" restore to {b}, the same files to {a}")

  def explore(self, limit):
    start = (0, (), ())  # host count, files, delivered
    seen = {start}
    todo = [(start, ())]
    truncated = False
    while todo:
      (m, files, done), path = todo.pop()
      files = dict(files)
      for n in self.hosts:
        per = [self.host(m, n, h, files) for h in range(n)]
        total = sorted(list(done) + [x for p in per for x in p[-1][0]])
        if total != self.all:
          raise Violation(
              f"hosts {path}, then {n} hosts reading on to the end: delivered before"
              f" {list(done)}, after {[list(p[-1][0]) for p in per]}; the data is {self.all}")
        steps = 0
        for combo in itertools.product(*[range(len(p)) for p in per]):
          w = {}
          more = []
          for h, k in enumerate(combo):
            more += per[h][k][0]
            w.update(per[h][k][1])
          s = (n, tuple(sorted(w.items())), tuple(sorted(list(done) + more)))
          steps += 1
          if s in seen:
            continue
          if len(seen) >= limit:
            truncated = True
            continue
          seen.add(s)
          todo.append((s, path + ((n, combo),)))
    self.res.states += len(seen)
    k = "state_bounded" if truncated else "fixpoints"
    self.res.extra[k] = self.res.extra.get(k, 0) + 1
    return len(seen)


# --- random access datasets -----------------------------------------------------------


def map_hosts(res, n, plan):
  """All hosts advance in step; any host's state restores all of the next."""
  from grain._src.core import sharding
  from grain._src.python.dataset import elastic_iterator
  g = cat.g()
  src = g.MapDataset.range(n).map(cat.keep)
  state, at = None, 0
  for phase, (hosts, gbs, steps) in enumerate(plan):
    its = [elastic_iterator.ElasticIterator(
        src, gbs, sharding.ShardOptions(shard_index=h, shard_count=hosts),
        read_options=cat.ro()) for h in range(hosts)]
    if state is not None:
      for it in its:
        it.set_state(json.loads(json.dumps(state)))
    k = 0
    while steps is None or k < steps:
      bs = []
      for it in its:
        try:
          bs.append(next(it))
        except StopIteration:
          bs.append(None)
      got = sorted(x for b in bs if b is not None for x in cat.leaves(b))
      if any(b is None for b in bs):
        if at + gbs <= n:
          raise Violation(f"phase {phase}: ended at {at} of {n} with batches of {gbs}")
        break
      if got != list(range(at, at + gbs)):
        raise Violation(f"phase {phase}: step at {at} delivered {got}")
      for b in bs:
        if len(b) != gbs // hosts:
          raise Violation(f"phase {phase}: host batch {b}")
      at += gbs
      k += 1
      states = [it.get_state() for it in its]
      if any(s != states[0] for s in states):
        raise Violation(f"phase {phase}: hosts report different states {states}")
      res.transitions += 1
    state = its[-1].get_state()
    for it in its:
      it.close()
  res.executions += 1
  res.states += 1


def configs(tier):
  q = tier == "quick"
  out = []
  lens = []
  for k in (1, 2, 3):
    lens += itertools.product(range(3) if k < 3 or not q else (0, 2), repeat=k)
  # The last: as text, 10 comes before 2.
  lens += [(1, 0, 1, 1), (2, 1, 0, 1), (1, 1, 1, 1), (0,) * 2 + (2,) + (0,) * 7 + (1,)]
  if not q:
    lens += itertools.product(range(2), repeat=4)
    lens += [(3, 1, 0, 2), (2, 2, 2), (4, 1), (3, 2, 1)]
  for ls in dict.fromkeys(lens):
    for cyc in (1, 2, 3, 4) if not q else (1, 2, 4):
      if cyc > len(ls) + 1:
        continue
      for kind in ("iter", "map", "lazy", "map_after", "threads"):
        if kind == "threads" and (len(ls) > 2 or sum(ls) > 2):
          continue
        if q and kind in ("map", "lazy", "map_after") and (len(ls) != 2 or cyc > 2):
          continue
        for gbs in (0, 2) if kind == "iter" else (0,):
          hosts = (1, 2, 3) if not gbs else (1, 2)
          if q and len(ls) > 3:
            hosts = (1, 2)
          out.append(("interleave", kind, ls, cyc, gbs, hosts))
  top = 7 if q else 10
  plans = []
  pairs = [(1, 1), (1, 2), (2, 2), (1, 3), (3, 3), (2, 4), (4, 4), (1, 4)]
  for a in pairs:
    for sa in range(3):
      for b in pairs:
        plans.append(((*a, sa), (*b, None)))
        for sb in (1,) if q else (0, 1, 2):
          for c in pairs[:5] if q else pairs:
            plans.append(((*a, sa), (*b, sb), (*c, None)))
  for n in range(top + 1):
    out.append(("map", n, plans))
  return out


def label(c):
  if c[0] == "map":
    return f"map({c[1]})"
  return f"{c[1]}{c[2]} cycle={c[3]} batch={c[4]} hosts={c[5]}"


def cases(tier):
  # The long ones first.
  cs = sorted(configs(tier), key=lambda c: -len(c[2]) * 10 - (sum(c[2]) if c[0] != "map" else 0))
  return report.chunked(cs, 96 if tier == "quick" else 256, "configs")


def explore(res, name, cs):
  tier = os.environ.get("VERIF_TIER", "quick")
  for c in cs:
    try:
      with hang_guard(200):
        if c[0] == "map":
          for p in c[2]:
            try:
              map_hosts(res, c[1], p)
            except Violation as e:
              raise Violation(f"plan (hosts, batch, steps) {p}: {e}") from None
          res.distinct += 1
        else:
          if c[1] == "threads":
            inline.unpatch()
          else:
            inline.patch()
          n = World(res, c[1:]).explore(400 if tier == "quick" else 20000)
          res.distinct += 1
          res.samples.append(f"{label(c)}: {n} states")
    except Violation as e:
      res.violation(label(c), f"{label(c)}: {e}", {"case": name, "config": label(c)})
    except Hang as e:
      res.violation(label(c), f"{label(c)}: does not terminate: {e}", {"case": name})
    finally:
      inline.unpatch()
