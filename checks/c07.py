"""C07: checkpoint files restore the state of the moment of saving, or nothing."""
import asyncio
from concurrent import futures
import itertools
import os
import shutil
import tempfile

from mc import catalog as cat
from mc import hist
from mc import inline
from mc import pipes
from mc import procs
from mc import report
from mc import vals
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of crash points (every truncation of every file, every set"
             " of missing files) and of all orders of background-save steps, iterator steps and"
             " processes, running the real handlers on real files")
RULE = ("a transition is: advance, call save, create the directory, run one background file"
        " operation, restore or load from a directory state; all orders of the events of one or"
        " two pending saves, or of two or three processes, with up to two advances in between;"
        " every directory state on the way is restored from, as after a crash; all strict"
        " prefixes of every file and all subsets of missing files; a restore has to give exactly"
        " the rest of the sequence from the moment of saving, or raise and leave the iterator's"
        " state and rest as they were")
ASSUMPTIONS = ("a checkpoint directory is written by one save only (as Orbax does it)",
               "files lose a tail or are missing; bytes are not changed otherwise",
               "reading ahead happens at once (inline executor) except where threads are named")


# --- what is saved ----------------------------------------------------------------------


def loader(n, shards, ops, epochs):
  import grain.python as g
  def make():
    sampler = g.IndexSampler(n, shard_options=g.ShardOptions(1 % shards, shards),
                             shuffle=True, num_epochs=epochs, seed=3)
    return g.DataLoader(data_source=g.RangeDataSource(10, 10 + n, 1), sampler=sampler,
                        operations=ops(), worker_count=0, read_options=cat.ro())
  return make


def loader_ops():
  import grain.python as g
  class Inc(g.MapTransform):
    def map(self, x):
      return x + 1
  return [Inc(), g.Batch(2, drop_remainder=False)]


def threaded(n):
  e = cat.g().experimental
  return e.ThreadPrefetchIterDataset(cat.gen_src(n), prefetch_buffer_size=2)


def subjects(tier):
  """label -> build"""
  out = {}
  names = pipes.names()
  ps = [(s, 3, ()) for s in pipes.sources()]
  ps += [("src", n, (c,)) for c in names for n in (0, 3) if pipes.well_formed((c,))]
  ps += [("src", 5, ("batch2", "rebatch3")), ("src", 5, ("wshuffle", "batch2")),
         ("mshuf", 3, ("batch2",)), ("src", 3, ("repeat2", "cache")),
         ("mnones", 4, ("limit3",))]
  if tier != "quick":
    ps += [("gen", n, (c,)) for c in names for n in (1, 4) if pipes.well_formed((c,))]
    ps += [("src", 3, (a, b)) for a in names for b in names if pipes.well_formed((a, b))]
  for p in dict.fromkeys(ps):
    out[f"{p[0]}({p[1]})" + "".join(">" + c for c in p[2])] = lambda p=p: pipes.build(*p)
  for i in (1, 2, 3):
    out[f"interleave{i}"] = lambda i=i: cat.ileaves()[f"interleave{i}"][0](cat.src(3))
  out["threads"] = lambda: threaded(3)
  for n, shards, epochs in ((3, 1, 1), (5, 2, 2), (4, 3, None if tier == "x" else 1)):
    out[f"loader({n} records, {shards} shards, {epochs} epochs)"] = loader(
        n, shards, list, epochs)
    out[f"loader({n} records, {shards} shards, {epochs} epochs) with operations"] = loader(
        n, shards, loader_ops, epochs)
  return out


def close(it):
  c = getattr(it, "close", None)
  if c is not None:
    c()


def advance(it, k):
  for _ in range(k):
    try:
      next(it)
    except StopIteration:
      return


def rest(it):
  return hist.run_to_end(it, 100)


def state(it):
  s = it.get_state()
  return s if isinstance(s, bytes) else vals.norm(s)


class Subject:
  """A pipeline, its sequence, and what files of it restore to."""

  def __init__(self, name, build):
    self.name = name
    self.ds = build()
    it = iter(self.ds)
    self.exp = rest(it)
    close(it)
    self.memo = {}

  def at(self, p):
    it = iter(self.ds)
    advance(it, p)
    return it


def handler():
  from grain._src.python.checkpoint import handler as h
  return h.CheckpointHandler()


class Args:
  def __init__(self, item):
    self.item = item


class Tmp:
  def __enter__(self):
    from etils import epath
    self.path = tempfile.mkdtemp(prefix="c07_")
    return epath.Path(self.path)
  def __exit__(self, *a):
    shutil.rmtree(self.path, ignore_errors=True)
    return False


def contents(d):
  return {f.name: f.read_text() for f in d.iterdir()} if d.exists() else {}


def put(d, files):
  for f in list(d.iterdir()):
    f.unlink()
  for k, v in files.items():
    (d / k).write_text(v)


def fails_quietly(res, it, before, restore, what):
  """A restore that cannot work: raises, and the iterator reports the same state."""
  res.transitions += 1
  try:
    restore()
  except Exception:  # pylint: disable=broad-except
    pass
  else:
    raise Violation(f"{what}: restoring succeeds")
  if state(it) != before:
    raise Violation(f"{what}: the failed restore moved the iterator from {before} to {state(it)}")


# --- save and restore through the handler ------------------------------------------------


def through_handler(res, s, tier):
  h = handler()
  n = len(s.exp)
  with Tmp() as d:
    for p in range(min(n, 4) + 2):
      it = s.at(p)
      put(d, {})
      if p % 2:
        h.save(d, args=Args(it))
      else:
        h.save(d, it)
      files = contents(d)
      res.states += 1
      if len(files) != 1:
        raise Violation(f"saving wrote {sorted(files)}")
      (name, text), = files.items()
      for q in range(3):
        # On the live iterator, after it went on.
        advance(it, q)
        r = h.restore(d, it) if q % 2 else h.restore(d, args=Args(it))
        res.transitions += 1
        if r is not it:
          raise Violation("restore returns another iterator")
        if q < 2 and n < 8:
          got = rest(it)
          if got != s.exp[p:]:
            raise Violation(f"saved at {p}, restored after {q} more: {got} instead of {s.exp[p:]}")
          h.restore(d, it)
      got = rest(it)
      if got != s.exp[p:]:
        raise Violation(f"saved at {p}, restored later: {got} instead of {s.exp[p:]}")
      close(it)
      if contents(d) != files:
        raise Violation("restoring changed the checkpoint")
      for q in {0, 1, n}:
        it = s.at(q)
        before = state(it)
        put(d, {})
        fails_quietly(res, it, before, lambda: h.restore(d, it), f"no file, at {q}")
        put(d, {name.replace("0-of-1", "0-of-2"): text, name.replace("0-of-1", "1-of-2"): text})
        fails_quietly(res, it, before, lambda: h.restore(d, it), f"other job's files, at {q}")
        put(d, {})
        for k in range(len(text)):
          (d / name).write_text(text[:k])
          fails_quietly(res, it, before, lambda: h.restore(d, it),
                        f"file cut after {k} of {len(text)}, at {q}")
          res.executions += 1
        got = rest(it)
        if got != s.exp[q:]:
          raise Violation(f"after failed restores at {q}: {got} instead of {s.exp[q:]}")
        (d / name).write_text(text)
        h.restore(d, it)
        got = rest(it)
        if got != s.exp[p:]:
          raise Violation(f"restored at {p} after failed restores: {got}, not {s.exp[p:]}")
        close(it)


# --- saves that are still pending --------------------------------------------------------


class Jobs(futures.ThreadPoolExecutor):
  """Runs background work only when told to."""

  def __init__(self):
    super().__init__(1)
    self.jobs = []

  def submit(self, fn, *a, **k):
    f = futures.Future()
    self.jobs.append((f, fn, a, k))
    return f

  def run(self):
    f, fn, a, k = self.jobs.pop(0)
    f.set_running_or_notify_cancel()
    try:
      f.set_result(fn(*a, **k))
    except BaseException as e:  # pylint: disable=broad-except
      f.set_exception(e)


class Awaiting:
  """Orbax's path that is created some time later."""

  def __init__(self, path, loop):
    self.path = path
    self.made = asyncio.Event()

  async def await_creation(self):
    await self.made.wait()
    return self.path


class Task:
  """One asynchronous save or load, driven event by event."""

  def __init__(self, index=0, count=1):
    self.who = index, count
    self.loop = asyncio.new_event_loop()
    self.jobs = Jobs()
    self.loop.set_default_executor(self.jobs)

  def pump(self):
    with procs.process(*self.who):
      for _ in range(8):
        self.loop.call_soon(self.loop.stop)
        self.loop.run_forever()

  def blocking(self, coro):
    """The part of the call the main thread waits for."""
    t = self.loop.create_task(coro)
    self.pump()
    while not t.done():
      if not self.jobs.jobs:
        raise Violation("save waits for the directory in the calling thread")
      self.job()
    return t.result()

  def start_save(self, it, path):
    self.dir = Awaiting(path, self.loop)
    with procs.process(*self.who):
      self.task = self.loop.create_task(self.blocking(it.save(self.dir)))
    self.pump()

  def start_load(self, it, path):
    with procs.process(*self.who):
      self.task = self.loop.create_task(self.blocking(it.load(path)))
    self.pump()

  def mkdir(self):
    self.dir.path.mkdir(parents=True, exist_ok=True)
    self.dir.made.set()
    self.pump()

  def job(self):
    with procs.process(*self.who):
      self.jobs.run()
    self.pump()

  @property
  def done(self):
    return self.task.done()

  def close(self):
    if hasattr(self, "task") and not self.task.done():
      self.task.cancel()
      self.pump()
    self.loop.close()


def check_dir(res, s, d, pos, what, n=(0, 1)):
  """Restoring from the directory as it is now: exact, or raises."""
  files = contents(d)
  key = (tuple(sorted(files.items())), n)
  if key not in s.memo:
    with procs.process(*n):
      it = s.at(1)
      before = state(it)
      try:
        handler().restore(d, it)
      except Exception:  # pylint: disable=broad-except
        if state(it) != before or rest(it) != s.exp[1:]:
          raise Violation(f"{what}: failed restore moved the iterator") from None
        s.memo[key] = None
      else:
        s.memo[key] = rest(it)
      close(it)
    res.transitions += 1
    res.states += 1
  got = s.memo[key]
  if got is not None and got != s.exp[pos:]:
    raise Violation(f"{what}: restores {got} instead of {s.exp[pos:]}")
  return got is not None


def pending_saves(res, s, saves, nexts, starts):
  """All orders of the events of some saves of one iterator."""

  def run(start, choices):
    """Follows the choices; returns the choices possible next."""
    it = s.at(start)
    pos = min(start, len(s.exp))
    tasks = []
    left = nexts
    trace = []
    with Tmp() as d:
      try:
        i = 0
        while True:
          for j, (t, p, made) in enumerate(tasks):
            ok = check_dir(res, s, d / str(j), p, f"start {start}, events {trace}: crash now")
            if t.done and not ok:
              t.task.result()
              raise Violation(f"start {start}, events {trace}: save finished, restore fails")
          en = []
          if len(tasks) < saves:
            en.append(("save",))
          if left and (len(tasks) < saves or not all(t.done for t, _, _ in tasks)):
            en.append(("next",))
          for j, (t, p, made) in enumerate(tasks):
            if not made:
              en.append(("mkdir", j))
            elif t.jobs.jobs:
              en.append(("job", j))
            elif not t.done:
              raise Violation(f"start {start}, events {trace}: save never finishes")
          if i == len(choices):
            if not en:
              got = rest(it)
              if got != s.exp[pos:]:
                raise Violation(f"start {start}, events {trace}: saving changed the iterator:"
                                f" {got} instead of {s.exp[pos:]}")
              return None
            return len(en)
          c = en[choices[i]]
          i += 1
          trace.append(c[0] + "".join(map(str, c[1:])))
          res.transitions += 1
          if c[0] == "next":
            advance(it, 1)
            pos = min(pos + 1, len(s.exp))
            left -= 1
          elif c[0] == "save":
            t = Task()
            tasks.append([t, pos, False])
            t.start_save(it, d / str(len(tasks) - 1))
            if t.jobs.jobs and not (d / str(len(tasks) - 1)).exists():
              raise Violation(f"start {start}, events {trace}: file operation before the"
                              " directory is there")
          elif c[0] == "mkdir":
            tasks[c[1]][0].mkdir()
            tasks[c[1]][2] = True
          else:
            tasks[c[1]][0].job()
      finally:
        close(it)
        for t, _, _ in tasks:
          t.close()

  for start in starts:
    stack = [[]]
    while stack:
      ch = stack.pop()
      n = run(start, ch)
      if n is None:
        res.executions += 1
        continue
      stack += [ch + [k] for k in range(n)]


def pending_save(res, s, nexts, starts):
  pending_saves(res, s, 1, nexts, starts)


def loads(res, s, tier, cuts):
  """Asynchronous loading at any position, of whole, cut and missing files."""
  h = handler()
  n = len(s.exp)
  with Tmp() as d:
    for p in range(min(n, 3) + 1):
      it = s.at(p)
      put(d, {})
      h.save(d, it)
      close(it)
      (name, text), = contents(d).items()
      for q in sorted({0, 1, n}):
        it = s.at(q)
        before = state(it)
        ks = range(len(text)) if cuts else (0, 1, len(text) // 2, len(text) - 1)
        for k in [None, *ks, len(text)]:
          put(d, {} if k is None else {name: text[:k]})
          t = Task()
          t.start_load(it, d)
          while not t.done:
            if not t.jobs.jobs:
              raise Violation("load never finishes")
            t.job()
            res.transitions += 1
          err = t.task.exception()
          t.close()
          res.executions += 1
          if k == len(text):
            if err is not None:
              raise Violation(f"saved at {p}, load at {q} fails: {err}")
            got = rest(it)
            if got != s.exp[p:]:
              raise Violation(f"saved at {p}, loaded at {q}: {got} instead of {s.exp[p:]}")
          else:
            if err is None:
              raise Violation(f"file cut after {k} of {len(text)}: load succeeds")
            if state(it) != before:
              raise Violation(f"file cut after {k}: the failed load moved the iterator")
        close(it)


# --- several processes --------------------------------------------------------------------


def job_of(n, kind):
  M = cat.g().MapDataset
  out = []
  for h in range(n):
    if kind == "loader":
      def build(h=h):
        import grain.python as g
        return g.DataLoader(
            data_source=g.RangeDataSource(0, 3 * n, 1), worker_count=0, read_options=cat.ro(),
            sampler=g.IndexSampler(3 * n, shard_options=g.ShardOptions(h, n), num_epochs=1,
                                   shuffle=False))
    else:
      def build(h=h):
        return M.source(list(range(3 * n)))[h::n].map(cat.keep).to_iter_dataset(
            cat.ro()).batch(1)
    out.append(Subject(f"process {h} of {n}", build))
  return out


def processes(res, kind, n, mode, tier):
  """n processes saving into one directory in every order."""
  ss = job_of(n, kind)
  if mode == "handler":
    orders = list(itertools.permutations(range(n))) if n < 4 else [
        tuple(range(n)), tuple(reversed(range(n)))]
  else:
    # Every merge of: save, mkdir, write of each process.
    orders = merges([3] * n) if n < 3 else merges([2] * n)
  pos = [h % 4 for h in range(n)]
  for order in orders:
    with Tmp() as d:
      sub = d / "ckpt"
      its = [s.at(p) for s, p in zip(ss, pos)]
      tasks = [Task(h, n) for h in range(n)]
      count = [0] * n
      saved = list(pos)
      if mode == "handler":
        sub.mkdir()
      for h in order:
        if mode == "handler":
          with procs.process(h, n):
            handler().save(sub, its[h])
          advance(its[h], 1)
        else:
          k = count[h]
          count[h] += 1
          if k == 0:
            tasks[h].start_save(its[h], sub)
            advance(its[h], 1)
            if n >= 3:
              tasks[h].mkdir()
          elif k == 1 and n < 3:
            tasks[h].mkdir()
          else:
            while not tasks[h].done:
              tasks[h].job()
        res.transitions += 1
        for i in range(n):
          done = check_dir_of(res, ss[i], sub, i, n, saved[i], order)
          if mode == "handler" and h == i and not done:
            raise Violation(f"order {order}: process {i} cannot restore what it saved")
      for i in range(n):
        if mode != "handler":
          tasks[i].task.result()
        if not check_dir_of(res, ss[i], sub, i, n, saved[i], order):
          raise Violation(f"order {order}: process {i} cannot restore")
        got = rest(its[i])
        if got != ss[i].exp[saved[i] + 1:]:
          raise Violation(f"order {order}: process {i} goes on with {got}")
        close(its[i])
        tasks[i].close()
      files = contents(sub)
      if len(files) != n:
        raise Violation(f"{n} processes wrote {sorted(files)}")
      res.executions += 1
      # Jobs of other sizes find no checkpoint of theirs.
      for m in (1, 2, 3, n + 1):
        if m == n or order != orders[0]:
          continue
        for i in range(m):
          with procs.process(i, m):
            it = ss[0].at(1)
            before = state(it)
            fails_quietly(res, it, before, lambda: handler().restore(sub, it),
                          f"process {i} of {m} with a checkpoint of {n}")
            t = Task(i, m)
            t.start_load(it, sub)
            while not t.done:
              t.job()
            if t.task.exception() is None or state(it) != before:
              raise Violation(f"process {i} of {m} loads a checkpoint of {n}")
            t.close()
            close(it)
      # Every subset of the files, as left when some processes died.
      if n < 4 and order == orders[0]:
        for k in range(n):
          for keep in itertools.combinations(sorted(files), k):
            put(sub, {f: files[f] for f in keep})
            for i in range(n):
              check_dir_of(res, ss[i], sub, i, n, saved[i], f"files {keep}")


def merges(counts):
  if not any(counts):
    return [()]
  out = []
  for i, c in enumerate(counts):
    if c:
      r = list(counts)
      r[i] -= 1
      out += [(i,) + m for m in merges(r)]
  return out


def check_dir_of(res, s, d, i, n, pos, order):
  return check_dir(res, s, d, pos, f"order {order}, restoring process {i} of {n}", (i, n))


# --- elastic checkpoints ------------------------------------------------------------------


def elastic(res, kind, lens, cyc, gbs, m, n, steps, tier):
  """m hosts saved; some files are gone or cut; n hosts restore."""
  from checks import c06
  from grain._src.core import sharding
  from grain._src.python.dataset import elastic_iterator
  ds = c06.build(kind, lens, cyc)
  h = handler()

  def host(i, k):
    return elastic_iterator.ElasticIterator(
        ds, gbs, sharding.ShardOptions(shard_index=i, shard_count=k))

  def restored(d, i):
    it = host(i, n)
    try:
      with procs.process(i, n):
        h.restore(d, it)
      return [x for v in rest(it) for x in flat(v)]
    finally:
      it.close()

  with Tmp() as d:
    for i in range(m):
      it = host(i, m)
      with procs.process(i, m):
        advance(it, steps[i])
        h.save(d, it)
      it.close()
    files = contents(d)
    want = [restored(d, i) for i in range(n)]
    byshard = None
    if m == n:
      put(d, {k: v for k, v in files.items() if k.startswith("shard")})
      byshard = [restored(d, i) for i in range(n)]
      for i in range(n):
        if sorted(byshard[i]) != sorted(want[i]):
          raise Violation(f"host {i}: {want[i]} from its own file, {byshard[i]} from shards")
    names = sorted(files)
    damaged = []
    top = len(names) if len(names) <= (5 if tier == "quick" else 8) else 2
    for k in range(1, top + 1):
      for gone in itertools.combinations(names, k):
        damaged.append((f"without {gone}", {f: v for f, v in files.items() if f not in gone}))
    for f in names:
      for k in range(0, len(files[f]), 1 if tier != "quick" or len(names) < 4 else 5):
        damaged.append((f"{f} cut after {k}", {**files, f: files[f][:k]}))
    for i in range(n):
      for q in (0, 1):
        it = host(i, n)
        with procs.process(i, n):
          advance(it, q)
          before = state(it)
          for what, fs in damaged:
            put(d, fs)
            res.transitions += 1
            res.states += 1
            try:
              h.restore(d, it)
            except Exception:  # pylint: disable=broad-except
              if state(it) != before:
                raise Violation(f"host {i} at {q}, {what}: the failed restore moved the iterator"
                                ) from None
              continue
            got = [x for v in rest(it) for x in flat(v)]
            res.executions += 1
            if got != want[i] and (byshard is None or got != byshard[i]):
              raise Violation(f"host {i}, {what}: restores {got}; saved was {want[i]}")
            it.close()
            it = host(i, n)
            advance(it, q)
            before = state(it)
          got = [x for v in rest(it) for x in flat(v)]
          o = host(i, n)
          advance(o, q)
          ref = [x for v in rest(o) for x in flat(v)]
          o.close()
          if got != ref:
            raise Violation(f"host {i} at {q}: after failed restores {got} instead of {ref}")
        it.close()


def flat(v):
  if isinstance(v, tuple) and v and v[0] == "arr":
    return list(v[3])
  return [v]


# --- cases ----------------------------------------------------------------------------------


def cases(tier):
  q = tier == "quick"
  jobs = []
  names = list(subjects(tier))
  long = set(names[::9] + [x for x in names if x.startswith(("loader", "thread", "inter"))])
  for x in names:
    jobs.append(("handler", x))
    jobs.append(("pending", x, 1, 2 if not q or x in long else 1))
    jobs.append(("load", x, x in long))
  for x in ("src(3)", "gen(3)", "src(3)>batch2", "src(3)>wshuffle", "interleave2", "src(3)>cache",
            "src(3)>ffd_shuf", "loader(5 records, 2 shards, 2 epochs)"):
    jobs.append(("pending", x, 2, 1 if q else 2))
  for kind in ("dataset", "loader"):
    for mode in ("handler", "async"):
      for n in (1, 2, 3) if mode == "async" else (1, 2, 3, 12):
        jobs.append(("processes", kind, n, mode))
  for kind in ("iter", "map", "lazy"):
    for lens in [(2,), (2, 1), (1, 2, 1), (2, 0, 1, 1)]:
      if q and kind != "iter" and len(lens) != 2:
        continue
      for cyc in (1, 2):
        for gbs in (0, 2):
          for m in (1, 2):
            for n in (1, 2, 3) if not gbs else (1, 2):
              for steps in [(0, 0), (1, 0), (1, 2)]:
                if m == 1 and steps[1]:
                  continue
                if q and (cyc, gbs) == (2, 2):
                  continue
                jobs.append(("elastic", kind, lens, cyc, gbs, m, n, steps))
  jobs.sort(key=lambda j: (j[0] != "pending" or j[2] < 2))
  return report.chunked(jobs, 96 if q else 256, "jobs")


def label(j):
  return " ".join(map(str, j))


def explore(res, name, js):
  tier = os.environ.get("VERIF_TIER", "quick")
  subs = None
  inline.patch()
  for j in js:
    try:
      with hang_guard(200):
        res.distinct += 1
        if j[0] in ("handler", "pending", "load"):
          subs = subs or subjects(tier)
          s = Subject(j[1], subs[j[1]])
          if j[0] == "handler":
            through_handler(res, s, tier)
          elif j[0] == "load":
            loads(res, s, tier, j[2])
          else:
            n = len(s.exp)
            starts = range(min(n, 3) + 1) if j[2] == 1 else (0, 1)
            pending_saves(res, s, j[2], j[3], starts)
        elif j[0] == "processes":
          processes(res, *j[1:], tier)
        else:
          elastic(res, *j[1:], tier)
    except Violation as e:
      res.violation(label(j), f"{label(j)}: {e}", {"case": name, "job": label(j)})
    except Hang as e:
      res.violation(label(j), f"{label(j)}: does not terminate: {e}", {"case": name})
  res.samples.append(label(js[0]))
