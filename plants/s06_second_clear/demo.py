
import os, time
import numpy as np
import grain
from grain._src.python.dataset.transformations import process_prefetch as pp
N = 400000
class Lazy:
    """Takes its time to be pickled, so that the queue's feeder thread is late."""
    def __init__(self, i):
        self.i = i
    def __reduce__(self):
        if self.i:
            time.sleep(1.5)
        return int, (self.i,)
class Slow(grain.transforms.Map):
    def map(self, i):
        return {"a": np.full(N, i, np.float64), "b": Lazy(i)}
def blocks():
    return set(os.listdir("/dev/shm"))
def main():
    before = blocks()
    it = pp.ProcessPrefetchIterDataset(
        grain.MapDataset.range(4).map(Slow()).to_iter_dataset(grain.ReadOptions(0, 0)), buffer_size=3).__iter__()
    x = next(it)
    time.sleep(0.3)
    it.close()
    del x, it
    time.sleep(1.5)
    left = {b for b in blocks() - before if b.startswith("psm")}
    assert not left, left
if __name__ == "__main__":
    from absl import flags
    flags.FLAGS.mark_as_parsed()
    main()
