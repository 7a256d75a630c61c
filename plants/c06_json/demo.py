
import json
import grain
from grain._src.python.dataset import elastic_iterator as ei
from grain._src.python.dataset.transformations import interleave
from grain._src.core import sharding
mk = lambda: ei.ElasticIterDatasetIterator(interleave.InterleaveIterDataset(
    [grain.MapDataset.range(10 * i, 10 * i + 2).to_iter_dataset() for i in range(12)],
    cycle_length=12), 0, sharding.ShardOptions(0, 1), read_options=grain.ReadOptions(0, 0))
a = mk()
first = [next(a) for _ in range(3)]
b = mk()
b.set_shard_states(json.loads(json.dumps(a.get_shard_states())))
rest = list(b)
assert sorted(first + rest) == sorted(10 * i + j for i in range(12) for j in range(2)), (first, rest)
