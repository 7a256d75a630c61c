
from grain._src.python.dataset.transformations import source
r = source.RangeMapDataset(0, 12)
r.set_slice(slice(1, None, 3), sequential_slice=True)
a = [r[i] for i in range(len(r))]
r.set_slice(slice(1, None, 3), sequential_slice=True)
b = [r[i] for i in range(len(r))]
assert a == b == [4, 5, 6, 7], (a, b)
