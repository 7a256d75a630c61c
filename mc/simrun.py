"""Runs code whose worker processes are simulated, under the default schedule."""
from mc import sched
from mc import simmp


def install():
  simmp.install()


def call(fn):
  """fn's result, with worker processes and threads as controlled tasks."""
  out = []

  def body(e):
    out.append(fn())
    e.drain()
  simmp.reset()
  _, err = sched.run_once(body, (), mode="sync", free=False,
                        max_timeouts=10**6, proc_globals=simmp.settings())
  if err is not None:
    raise err
  sched._collect()
  return out[0]
