"""Processes and their primitives as tasks of the controlled scheduler.

Inside an exploration `multiprocessing.get_context()` gives a `SimContext`.  Its
queues are the standard library's own (feeder thread, semaphore, pickling), on
simulated locks, semaphores and pipes.  A process is a task with its own copy of
the module globals listed in the execution's `proc_globals`.
"""
import collections
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import multiprocessing.queues
import threading

from mc import sched

_real_get_context = multiprocessing.get_context
_real_pipe = multiprocessing.connection.Pipe


def _e():
  e = sched._cur()
  if e is None:
    # After an execution: nothing blocks and nothing matters any more.
    return None
  return e


def _sync(e):
  t = e.cur
  if t.fresh:
    t.fresh = False
    if e.mode == "sync" and not e.killing:
      e.point()


class _SemLock:
  def __init__(self, o):
    self.o = o

  def _get_value(self):
    return self.o.v

  def _is_mine(self):
    return False


class SimSem:
  def __init__(self, value=1, bound=None):
    self.v = value
    self.bound = bound
    self._semlock = _SemLock(self)

  def acquire(self, block=True, timeout=None):
    e = _e()
    if e is None:
      if self.v > 0:
        self.v -= 1
        return True
      if block and timeout is None:
        raise sched.TaskKill()
      return False
    _sync(e)
    if self.v > 0:
      self.v -= 1
      return True
    if not block:
      return False
    end = None if timeout is None else e.clock + max(0.0, timeout)
    while True:
      ok = e.block(lambda: self.v > 0, None if end is None else max(0.0, end - e.clock), "sem")
      if self.v > 0:
        self.v -= 1
        return True
      if not ok:
        return False

  def release(self, n=1):
    e = _e()
    if e is not None:
      _sync(e)
    if self.bound is not None and self.v + n > self.bound:
      raise ValueError("semaphore or lock released too many times")
    self.v += n

  def get_value(self):
    return self.v

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()


class SimLock(SimSem):
  def __init__(self):
    super().__init__(1, 1)


class SimRLock:
  def __init__(self):
    self.owner = None
    self.n = 0

  def _count(self, e, d):
    # A process does not die inside a critical section.
    p = getattr(e, "procs", {}).get(e.cur.proc)
    if p:
      p.locks += d

  def acquire(self, block=True, timeout=None):
    e = _e()
    if e is None:
      return True
    _sync(e)
    me = e.cur
    if self.owner is me or self.owner is None:
      self.owner = me
      self.n += 1
      self._count(e, 1)
      return True
    if not block:
      return False
    end = None if timeout is None else e.clock + timeout
    while True:
      ok = e.block(lambda: self.owner is None,
                   None if end is None else max(0.0, end - e.clock), "rlock")
      if self.owner is None:
        self.owner = me
        self.n = 1
        self._count(e, 1)
        return True
      if not ok:
        return False

  def release(self):
    e = _e()
    if e is None:
      return
    if self.owner is not e.cur:
      raise AssertionError("attempt to release recursive lock not owned by thread")
    self.n -= 1
    self._count(e, -1)
    if not self.n:
      self.owner = None

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()


class SimEvent:
  def __init__(self):
    self.f = False

  def _s(self):
    e = _e()
    if e is not None:
      _sync(e)

  def is_set(self):
    self._s()
    return self.f

  def set(self):
    self._s()
    self.f = True

  def clear(self):
    self._s()
    self.f = False

  def wait(self, timeout=None):
    e = _e()
    if e is None:
      return self.f
    _sync(e)
    return e.block(lambda: self.f, timeout, "event") or self.f


class SimValue:
  def __init__(self, value, lock):
    self._v = value
    self._lock = lock

  def get_lock(self):
    return self._lock

  def get_obj(self):
    return self

  def acquire(self, *a):
    return self._lock.acquire(*a)

  def release(self):
    return self._lock.release()

  def __enter__(self):
    return self._lock.__enter__()

  def __exit__(self, *a):
    return self._lock.__exit__(*a)

  @property
  def value(self):
    if self._lock is None:
      return self._v
    with self._lock:
      return self._v

  @value.setter
  def value(self, x):
    if self._lock is None:
      self._v = x
    else:
      with self._lock:
        self._v = x


class SimConn:
  def __init__(self, box):
    self.box = box
    self.closed = False

  def send_bytes(self, b, *a):
    self.box.append(bytes(b))

  def recv_bytes(self, *a):
    e = _e()
    if e is None:
      return self.box.popleft()
    e.block(lambda: self.box, None, "pipe")
    return self.box.popleft()

  def poll(self, timeout=0.0):
    e = _e()
    if e is None or self.box:
      return bool(self.box)
    if timeout is not None and timeout <= 0:
      return False
    return bool(e.block(lambda: self.box, timeout, "poll") or self.box)

  def close(self):
    self.closed = True

  def fileno(self):
    return -1


def _pipe(duplex=True):
  if _e() is None:
    return _real_pipe(duplex)
  assert not duplex
  box = collections.deque()
  return SimConn(box), SimConn(box)


def clone_for_process(x, clones):
  """What a spawned process receives for `x`."""
  if isinstance(x, multiprocessing.queues.Queue):
    st = x.__getstate__()
    c = type(x).__new__(type(x))
    c.__setstate__(st)
    clones.append(c)
    return c
  if isinstance(x, dict):
    return {k: clone_for_process(v, clones) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return type(x)(clone_for_process(v, clones) for v in x)
  return x


class SimProcess:
  _ids = itertools.count(1)

  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
    self.target = target
    self.args = args
    self.kwargs = kwargs or {}
    self.name = name or "process"
    self.daemon = daemon
    self._exit = None
    self.locks = 0
    self._task = None
    self.pid = None
    self._e = None

  @property
  def exitcode(self):
    return self._exit

  def start(self):
    e = _e()
    assert self._task is None, "cannot start a process twice"
    self._e = e
    e.nprocs = getattr(e, "nprocs", 0) + 1
    self.proc = e.nprocs
    self.pid = 100000 + self.proc
    procs = getattr(e, "procs", None)
    if procs is None:
      procs = e.procs = {}
    procs[self.proc] = self
    self.clones = []
    args = clone_for_process(self.args, self.clones)
    kwargs = clone_for_process(self.kwargs, self.clones)
    self._task = e.spawn(lambda: self._run(args, kwargs), f"process{self.proc}", proc=self.proc)

  def _run(self, args, kwargs):
    e = self._e
    code = 1
    try:
      self.target(*args, **kwargs)
      code = 0
    except SystemExit as x:
      code = x.code or 0
    except Exception as x:  # pylint: disable=broad-except
      e.errors.append((self.name, x))
    # The feeder threads are flushed before a process ends.
    del args, kwargs
    for c in self.clones:
      if c._thread is not None:
        c.close()
        c.join_thread()
    self._end(code)

  def _end(self, code):
    e = self._e
    self._exit = code
    for t in list(e.live):
      if t.proc == self.proc and t is not self._task:
        e.kill_task(t)

  def crash(self, code=-9):
    e = self._e
    if self._exit is not None or self._task is None or self._task.done:
      return
    self._exit = code
    for t in list(e.live):
      if t.proc == self.proc:
        e.kill_task(t)

  def is_alive(self):
    return self._task is not None and self._exit is None

  def join(self, timeout=None):
    e = _e()
    if e is None:
      return
    _sync(e)
    e.block(lambda: self._exit is not None, timeout, "join process")

  def kill(self):
    self.crash(-9)

  def terminate(self):
    self.crash(-15)

  def close(self):
    pass


class SimContext:
  """Stands in for multiprocessing's spawn context."""

  _name = "spawn"

  def Lock(self):
    return SimLock()

  def RLock(self):
    return SimRLock()

  def Semaphore(self, value=1):
    return SimSem(value)

  def BoundedSemaphore(self, value=1):
    return SimSem(value, value)

  def Event(self):
    return SimEvent()

  def Value(self, typ, value=0, *, lock=True):
    return SimValue(value, SimRLock() if lock is True else (lock or None))

  def Queue(self, maxsize=0):
    return multiprocessing.queues.Queue(maxsize, ctx=self)

  def get_context(self, method=None):
    return self

  def get_start_method(self, allow_none=False):
    return "spawn"

  Process = SimProcess


class SimPool:
  """A thread pool whose threads are tasks; one queue, in order."""

  def __init__(self, processes=1, *a, **k):
    e = _e()
    self.jobs = collections.deque()
    self.e = e
    self.maxlen = 0
    self.busy = 0
    e.pools = getattr(e, "pools", []) + [self]
    for i in range(processes):
      e.spawn(self._work, f"pool{i}")

  def _work(self):
    while True:
      self.e.block(lambda: self.jobs, None, "pool")
      if not self.jobs:
        continue
      fn, args, kw = self.jobs.popleft()
      self.busy += 1
      try:
        fn(*args, **kw)
      except Exception as x:  # pylint: disable=broad-except
        self.e.errors.append(("pool", x))
      finally:
        self.busy -= 1

  def apply_async(self, fn, args=(), kwds=None, *a, **k):
    self.jobs.append((fn, args, kwds or {}))
    self.maxlen = max(self.maxlen, len(self.jobs) + self.busy)


def _get_context(method=None):
  if _e() is None:
    return _real_get_context(method)
  return SimContext()


_installed = False


def install():
  global _installed
  sched.install()
  if _installed:
    return
  _installed = True
  multiprocessing.get_context = _get_context
  multiprocessing.queues.connection.Pipe = _pipe
  multiprocessing.queues.context.assert_spawning = (
      lambda o, f=multiprocessing.queues.context.assert_spawning: None if _e() else f(o))
  real_pool = multiprocessing.pool.ThreadPool

  def thread_pool(*a, **k):
    return real_pool(*a, **k) if _e() is None else SimPool(*a, **k)

  multiprocessing.pool.ThreadPool = thread_pool


_settings = None


def settings():
  """proc_globals for grain's process prefetch: what each process has of its own."""
  global _settings
  if _settings is None:
    from grain._src.python.dataset.transformations import process_prefetch as pp
    from grain._src.python.ipc import shared_memory_array as sma
    _settings = [(pp, n, v) for n, v in vars(pp).items() if isinstance(v, bool)]
    _settings += [(sma.SharedMemoryArray, n, None)
                  for n, v in vars(sma.SharedMemoryArray).items()
                  if v is None and not n.startswith("__")]
    _settings += [(sma, n, v) for n, v in vars(sma).items()
                  if (v is None or isinstance(v, bool)) and not n.startswith("__")]
  return _settings


def reset():
  """Global state as in a new process."""
  for obj, name, value in settings():
    setattr(obj, name, value)
