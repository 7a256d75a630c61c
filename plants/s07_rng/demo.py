
import threading
from grain._src.python.dataset.transformations import map as m
p = m.RngPool(1)
class L(list):
    def __len__(self):
        n = super().__len__()
        return n
p.release_rng(p.acquire_rng(0))
held, go = threading.Event(), threading.Event()
real = p._lock
class Slow:
    """Holds every thread at the lock until both have arrived."""
    b = threading.Barrier(2)
    def __enter__(self):
        try:
            self.b.wait(2)
        except threading.BrokenBarrierError:
            pass
        return real.__enter__()
    def __exit__(self, *a):
        return real.__exit__(*a)
p._lock = Slow()
errs = []
def run(i):
    try:
        p.acquire_rng(i)
    except Exception as e:
        errs.append(e)
t = [threading.Thread(target=run, args=(i,)) for i in range(2)]
[x.start() for x in t]; [x.join() for x in t]
assert not errs, errs
