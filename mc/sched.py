"""A controlled scheduler for the real, unmodified threaded code.

`install()` (before grain is imported) replaces the lock and thread primitives of
the standard library by ones that work as always outside an exploration.  Inside
`run()` exactly one task runs at a time; the standard library's queues,
conditions, events, semaphores and executors are the real ones, built on these
locks.  A task can be preempted

* before every source line of the chosen files ("line" mode), or
* before the first lock operation of every such line ("sync" mode),

and is switched away from when it blocks.  Time is virtual: a timed wait ends
when nothing else can run, or, as a deviation, at any moment.

`explore()` enumerates all schedules of a scenario up to a bound on deviations
from the default schedule ("keep running the current task"): a preemption or an
early timeout costs one; the choice of the next task after a block costs nothing,
or one as well with free=False.
"""
import collections
import gc
import sys
import threading
import time
import traceback
import queue
import _thread

from mc import cli
from mc.report import Violation

get_ident = _thread.get_ident
_raw_lock = _thread.allocate_lock
_RealThread = threading.Thread
_real_time = time.time
_real_monotonic = time.monotonic
_real_sleep = time.sleep

ACTIVE = None  # the running Execution
DEAD = False   # tearing down: nothing may block
TOOL = 3


class TaskKill(BaseException):
  """Unwinds a task at the end of an execution."""


class Deadlock(Violation):
  pass


class Livelock(Violation):
  pass


class Task:
  __slots__ = ("id", "name", "baton", "pred", "deadline", "done", "fresh", "proc",
               "timedout", "thread", "ident", "dead", "what", "locals")

  def __init__(self, i, name, proc):
    self.id = i
    self.name = name
    self.baton = _raw_lock()
    self.baton.acquire()
    self.pred = None
    self.deadline = None
    self.done = False
    self.fresh = False
    self.proc = proc
    self.timedout = False
    self.thread = None
    self.ident = None
    self.dead = False
    self.what = ""

  def enabled(self):
    if self.done or self.dead:
      return False
    p = self.pred
    return p is None or p()


class Execution:
  """One run of a scenario under a fixed list of deviations."""

  def __init__(self, deviations=(), mode="line", files=(), max_steps=20000,
               timeouts=False, max_timeouts=60, proc_globals=(), verbose=False,
               free=True, crash=False, collect=False):
    self.dev = dict(deviations)
    self.last_dev = max(self.dev, default=-1)
    self.mode = mode
    self.log = []       # per choice point: tuple of option costs
    self.steps = 0
    self.max_steps = max_steps
    self.early = timeouts
    self.may_crash = crash
    self.collect = collect
    self.garbage = []   # objects whose finalizers the garbage collector may run
    self.crashed = 0
    self.block_cost = 0 if free else 1
    self.max_timeouts = max_timeouts
    self.timeouts = 0
    self.clock = 1000.0
    self.tasks = []     # all tasks
    self.live = []      # those neither done nor dead
    self.by_ident = {}
    self.cur = None
    self.killing = False
    self.proc_globals = proc_globals
    self.proc_values = {}
    self.nopoints = 0
    self.crashes = []   # tasks groups that may be killed: callables
    self.verbose = verbose
    self.switches = []
    self.fail = None

  # --- tasks

  def new_task(self, name, proc):
    t = Task(len(self.tasks), name, proc)
    self.tasks.append(t)
    self.live.append(t)
    return t

  def kill_task(self, t):
    """The task never runs again (its process died)."""
    t.dead = True
    if t in self.live:
      self.live.remove(t)

  def me(self):
    t = self.by_ident.get(get_ident())
    return t

  # --- choice points

  def _choose(self, costs):
    i = len(self.log)
    self.log.append(costs)
    k = self.dev.get(i, 0)
    if k >= len(costs):
      raise AssertionError(f"schedule does not fit: point {i} has {len(costs)}"
                           f" options, not {k}")
    return k

  def choose(self, n, cost=1):
    """A choice made by the environment (a fault, a delivery, ...)."""
    if n == 1:
      return 0
    return self._choose((0,) + (cost,) * (n - 1))

  def point(self):
    """The current task may be preempted here."""
    if self.nopoints:
      return
    self.steps += 1
    if self.killing:
      raise TaskKill()
    if self.steps > self.max_steps:
      self._fail(Livelock(f"no end after {self.steps} steps\n" + self.stacks()))
    if self.collect and self.garbage and self._choose((0, 1)):
      # The garbage collector runs in this thread, here.
      x = self.garbage.pop()
      del x
    if len(self.live) == 1:
      return
    t = self.cur
    others = [u for u in self.live
              if u is not t and (u.pred is None or u.pred())]
    timed = ([u for u in self.live if u is not t and u.deadline is not None
              and u not in others] if self.early else ())
    n = len(others) + len(timed)
    crash = (self.may_crash and t.proc and not self.crashed
             and not self.procs[t.proc].locks)
    if not n and not crash:
      return
    k = self._choose((0,) + (1,) * (n + bool(crash)))
    if not k:
      return
    if k == n + 1:
      # The process of this task is killed here.
      self.crashed += 1
      self.procs[t.proc].crash()
      u = self._next()
      if u is None:
        self._fail(Deadlock("no task can run\n" + self.stacks()))
      self._switch(u)
    elif k <= len(others):
      self._switch(others[k - 1])
    else:
      u = timed[k - 1 - len(others)]
      self._timeout(u)
      self._switch(u)

  def _timeout(self, u):
    self.clock = max(self.clock, u.deadline)
    u.timedout = True
    u.pred = None
    u.deadline = None
    self.timeouts += 1

  def _fail(self, e):
    """Ends the execution with the violation e."""
    if self.fail is None:
      self.fail = e
    t, main = self.cur, self.tasks[0]
    self.killing = True
    if t is not main:
      self._globals(t, main)
      self.cur = main
      main.baton.release()
      t.baton.acquire()
    # Not an Exception, so that no code under test can swallow it.
    raise TaskKill()

  def _switch(self, u):
    t = self.cur
    if u is t:
      return
    if self.verbose:
      self.switches.append((self.steps, len(self.log) - 1, t.name, u.name))
    self._globals(t, u)
    self.cur = u
    u.baton.release()
    t.baton.acquire()
    # Somebody switched back to t.
    if self.killing:
      raise TaskKill()

  def _globals(self, t, u):
    if t.proc == u.proc:
      return
    for g in self.proc_globals:
      obj, name = g[0], g[1]
      self.proc_values[(t.proc, name)] = getattr(obj, name)
      setattr(obj, name, self.proc_values.get((u.proc, name), g[2]))

  def _next(self, ending=False):
    """Chooses who runs after the current task blocked or ended."""
    t = self.cur
    while True:
      en = [u for u in self.live if u is not t and (u.pred is None or u.pred())]
      if not t.done and not t.dead and t.enabled():
        en.insert(0, t)
      timed = [u for u in self.live if u.deadline is not None and u not in en]
      self.steps += 1
      if self.steps > self.max_steps:
        if ending:
          return None
        self._fail(Livelock(f"no end after {self.steps} steps\n" + self.stacks()))
      if en:
        extra = timed if self.early else ()
        n = len(en) + len(extra)
        k = 0
        if n > 1:
          k = self._choose((0,) + (self.block_cost,) * (len(en) - 1) + (1,) * len(extra))
        if k < len(en):
          return en[k]
        u = extra[k - len(en)]
        self._timeout(u)
        return u
      if timed:
        if self.timeouts >= self.max_timeouts:
          if ending:
            return None
          self._fail(Livelock(
              f"still waiting after {self.timeouts} timeouts\n" + self.stacks()))
        u = min(timed, key=lambda u: (u.deadline, u.id))
        self._timeout(u)
        return u
      return None

  def block(self, pred, timeout=None, what=""):
    """Blocks the current task until pred() or the timeout; tells which."""
    t = self.cur
    if self.killing:
      raise TaskKill()
    if pred is not None and pred():
      return True
    t.pred = pred if pred is not None else (lambda: False)
    t.deadline = None if timeout is None else self.clock + timeout
    t.timedout = False
    t.what = what
    u = self._next()
    if u is None:
      self._fail(Deadlock("no task can run\n" + self.stacks()))
    if u is not t:
      self._switch(u)
    t.pred = None
    t.deadline = None
    if t.timedout:
      t.timedout = False
      return False
    return True

  def drain(self, what="drain"):
    """Lets all other tasks run until none of them can."""
    t = self.cur
    self.block(lambda: not any(u is not t and u.enabled() for u in self.live), what=what)

  def quiesce(self, timeouts=5):
    """Like drain, and lets waits time out."""
    self.drain()
    for _ in range(timeouts):
      timed = [u for u in self.tasks if u is not self.cur and u.deadline is not None
               and not u.done and not u.dead]
      if not timed:
        return
      u = min(timed, key=lambda u: (u.deadline, u.id))
      self._timeout(u)
      self.drain()

  def alive(self):
    return [u for u in self.tasks if u.id and not u.done and not u.dead]

  def stacks(self):
    out = []
    frames = sys._current_frames()
    for u in self.tasks:
      if u.done:
        continue
      f = frames.get(u.ident)
      st = []
      while f is not None:
        fn = f.f_code.co_filename
        if "/grain/" in fn or "/verif/" in fn and "sched.py" not in fn:
          st.append(f"{fn.rsplit('/', 1)[-1]}:{f.f_lineno}:{f.f_code.co_name}")
        f = f.f_back
      out.append(f"  task {u.id} {u.name}{' (dead)' if u.dead else ''}: "
                 + " < ".join(st[:6]))
    return "\n".join(out)

  # --- running

  def _boot(self, task, thread, target):
    task.baton.acquire()
    task.ident = get_ident()
    self.by_ident[task.ident] = task
    if thread is not None:
      thread._ident = task.ident
      threading._active[task.ident] = thread
    try:
      if not self.killing and not task.dead:
        target()
    except (TaskKill, SystemExit):
      pass
    except Violation as e:
      if self.fail is None:
        self.fail = e
    except BaseException as e:  # pylint: disable=broad-except
      self.errors.append((task.name, e))
    finally:
      self._finish(task)

  errors = ()

  def _finish(self, task):
    task.done = True
    if task in self.live:
      self.live.remove(task)
    self.by_ident.pop(task.ident, None)
    threading._active.pop(task.ident, None)
    if self.killing:
      self.reaper.release()
      return
    u = None
    if self.fail is None and self.steps <= self.max_steps:
      u = self._next(ending=True)
    if u is None or self.fail is not None:
      if self.fail is None:
        self.fail = Deadlock("no task can run, or no end of waiting\n" + self.stacks())
      u = self.tasks[0]
      # Wake the main task to report.
      self._globals(task, u)
      self.cur = u
      self.killing = True
      u.baton.release()
      return
    self._globals(task, u)
    if self.verbose:
      self.switches.append((self.steps, len(self.log) - 1, task.name + " ends", u.name))
    self.cur = u
    u.baton.release()

  def spawn(self, target, name, proc=None, thread=None):
    t = self.new_task(name, self.cur.proc if proc is None else proc)
    t.thread = thread
    _thread.start_new_thread(self._boot, (t, thread, target))
    return t

  def run(self, body):
    """Runs body() as the main task in this thread."""
    global ACTIVE, DEAD
    assert ACTIVE is None
    self.errors = []
    self.reaper = _raw_lock()
    self.reaper.acquire()
    main = self.new_task("main", 0)
    main.ident = get_ident()
    self.by_ident[main.ident] = main
    self.cur = main
    for g in self.proc_globals:
      self.proc_values[(0, g[1])] = getattr(g[0], g[1])
    ACTIVE = self
    result = None
    error = None
    try:
      result = body()
    except TaskKill:
      error = self.fail
    except BaseException as e:  # pylint: disable=broad-except
      error = self.fail or e
    finally:
      main.done = True
      self.killing = True
      for u in self.tasks[1:]:
        n = 0
        while not u.done and n < 50:
          n += 1
          self._globals(self.cur, u)
          self.cur = u
          u.baton.release()
          if not self.reaper.acquire(True, 5):
            break
      self._globals(self.cur, main)
      self.cur = main
      ACTIVE = None
    if error is not None:
      raise error
    if self.fail is not None:
      raise self.fail
    return result


# --- primitives


def _cur():
  e = ACTIVE
  if e is None:
    return None
  t = e.by_ident.get(get_ident())
  if t is None:
    return None
  return e


class DualLock:
  """A lock that the scheduler knows about."""

  __slots__ = ("_real", "__weakref__")

  def __init__(self):
    self._real = _raw_lock()

  def acquire(self, blocking=True, timeout=-1):
    e = ACTIVE
    if e is None or get_ident() not in e.by_ident:
      if DEAD:
        if self._real.acquire(False):
          return True
        if not blocking:
          return False
        raise TaskKill()
      return self._real.acquire(blocking, timeout)
    t = e.cur
    if t.fresh:
      t.fresh = False
      if e.mode == "sync" and not e.killing:
        e.point()
    real = self._real
    if real.acquire(False):
      return True
    if not blocking:
      return False
    end = None if timeout is None or timeout < 0 else e.clock + timeout
    while True:
      ok = e.block(lambda: not real.locked(),
                   None if end is None else max(0.0, end - e.clock), "lock")
      if real.acquire(False):
        return True
      if not ok:
        return False

  def release(self):
    self._real.release()

  def locked(self):
    return self._real.locked()

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  def _at_fork_reinit(self):
    self._real = _raw_lock()

  def __repr__(self):
    return "<DualLock>"

  def __deepcopy__(self, memo):
    raise TypeError("cannot pickle '_thread.lock' object")

  def __reduce__(self):
    raise TypeError("cannot pickle '_thread.lock' object")


class DualThread(_RealThread):
  _mc_task = None

  def start(self):
    e = _cur()
    if e is None:
      return super().start()
    if self._mc_task is not None:
      raise RuntimeError("threads can only be started once")
    self._started._flag = True
    self._mc_exec = e
    self._mc_task = e.spawn(self._mc_run, self.name, thread=self)

  def _mc_run(self):
    try:
      self.run()
    finally:
      self._is_stopped = True

  def is_alive(self):
    if self._mc_task is None:
      return super().is_alive()
    return not self._mc_task.done and not self._mc_task.dead

  def join(self, timeout=None):
    t = self._mc_task
    if t is None:
      return super().join(timeout)
    e = _cur()
    if e is not None and e is self._mc_exec:
      if e.cur is t:
        raise RuntimeError("cannot join current thread")
      e.block(lambda: t.done, timeout, "join")


def _dual_sleep(s):
  e = _cur()
  if e is None:
    return _real_sleep(s)
  e.block(None, s, "sleep")


def _dual_time():
  e = _cur()
  return _real_time() if e is None else e.clock


def _dual_monotonic():
  e = _cur()
  return _real_monotonic() if e is None else e.clock


_FILES = set()
# Code that only its own thread can see the effects of.
_SKIP = {"<module>", "__init__", "__str__", "__repr__", "_initialize_stats", "_stats",
         "_element_spec", "_threshold_checker", "_initialize_prefetch_stats"}
_installed = False


def _on_line(code, line):
  if code.co_filename not in _FILES or code.co_name in _SKIP:
    return sys.monitoring.DISABLE
  e = ACTIVE
  if e is None:
    return
  t = e.cur
  if t.ident != get_ident():
    return
  if e.mode == "line":
    e.point()
  else:
    t.fresh = True


def install():
  """Replaces the primitives; to be called before grain is imported."""
  global _installed
  if _installed:
    return
  _installed = True
  import concurrent.futures.thread as cft
  threading.Lock = DualLock
  threading._allocate_lock = DualLock
  threading.RLock = threading._PyRLock
  threading.Thread = DualThread
  threading._time = _dual_monotonic
  queue.time = _dual_monotonic
  queue.SimpleQueue = queue._PySimpleQueue
  time.sleep = _dual_sleep
  time.time = _dual_time
  time.monotonic = _dual_monotonic
  cft._global_shutdown_lock = DualLock()
  sys.monitoring.use_tool_id(TOOL, "mc")
  sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _on_line)
  sys.unraisablehook = lambda *_: None
  threading.excepthook = lambda *_: None


def watch(*modules):
  """Chooses the files whose lines are preemption points."""
  for m in modules:
    _FILES.add(m if isinstance(m, str) else m.__file__)
  sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
  sys.monitoring.restart_events()
  # Keeps the collections between executions cheap.
  gc.collect()
  gc.freeze()


def no_points():
  """Context manager: the code inside is not preempted."""
  class _C:
    def __enter__(self):
      self.e = _cur()
      if self.e:
        self.e.nopoints += 1
    def __exit__(self, *a):
      if self.e:
        self.e.nopoints -= 1
  return _C()


def run_once(body, deviations=(), **kw):
  """Runs one schedule; returns (execution, error)."""
  global DEAD
  e = Execution(deviations, **kw)
  err = None
  gc.disable()
  try:
    e.run(lambda: body(e))
  except Violation as x:
    err = x
  except Exception as x:  # pylint: disable=broad-except
    err = x
  return e, err


def _collect():
  global DEAD
  DEAD = True
  try:
    gc.collect()
  finally:
    DEAD = False


def explore(res, name, body, *, budget=1, shard=(0, 1), max_execs=1000000,
            max_len=None, setup=None, key=None, **kw):
  """Enumerates all schedules of body(execution) up to `budget` deviations."""
  with_err = 0
  if cli.SCHEDULE is not None:
    # A replay: only the recorded schedule.
    if setup:
      setup()
    dev = tuple(tuple(d) for d in cli.SCHEDULE)
    e, err = run_once(body, dev, **kw)
    res.executions += 1
    if err is not None:
      report(res, name, body, dev, err, key, kw, setup)
    return
  stack = [((), 0)]
  n = 0
  points = 0
  while stack:
    dev, cost = stack.pop()
    if n >= max_execs:
      res.incomplete.append(f"{name}: stopped after {n} schedules")
      break
    if setup:
      setup()
    e, err = run_once(body, dev, **kw)
    n += 1
    root = not dev
    if not root or shard[0] == 0:
      res.executions += 1
      res.transitions += e.steps
      res.distinct += 1
    first = dev[-1][0] + 1 if dev else 0
    res.states += len(e.log) - first
    points = max(points, len(e.log))
    if err is not None:
      if not root or shard[0] == 0:
        report(res, name, body, dev, err, key, kw, setup)
        with_err += 1
        if with_err >= 3:
          res.incomplete.append(f"{name}: stopped after 3 failing schedules")
          break
      # The alternatives of a failing schedule are explored like any other's.
    j = 0
    for i in range(first, len(e.log)):
      costs = e.log[i]
      for k in range(1, len(costs)):
        c = cost + costs[k]
        if c > budget:
          continue
        j += 1
        if root and j % shard[1] != shard[0]:
          continue
        stack.append((dev + ((i, k),), c))
    if n % 200 == 0:
      _collect()
  _collect()
  res.extra["schedules"] = res.extra.get("schedules", 0) + n
  res.extra["longest_schedule"] = max(res.extra.get("longest_schedule", 0), points)
  if shard[0] == 0:
    res.samples.append(f"{name}: {n} schedules in shard 0 of {shard[1]},"
                       f" up to {points} choice points, budget {budget}")


def report(res, name, body, dev, err, key, kw, setup=None):
  if setup:
    setup()
  e, err2 = run_once(body, dev, verbose=True, **kw)
  sw = "\n".join(f"    step {s}: {a} -> {b}" for s, _, a, b in e.switches[:60])
  if isinstance(err, Violation):
    text = str(err)
  else:
    text = f"raised {type(err).__name__}: {err}\n" + "".join(
        traceback.format_exception(err))[-2500:]
  again = "reproduced" if err2 is not None else "NOT reproduced on replay"
  k = key(text) if key else f"{name}: {text.splitlines()[0][:200]}"
  res.violation(k, f"{name}, schedule {dev} ({again}):\n{text}\n  switches:\n{sw}",
                {"case": name, "schedule": list(dev)})
