
import tempfile, os
import pyarrow as pa, pyarrow.parquet as pq
import grain
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.parquet")
    pq.write_table(pa.table({"a": list(range(6))}), p, row_group_size=2)
    it = iter(grain.experimental.ParquetIterDataset(p))
    next(it)
    s = it.get_state()
    for _ in range(3):
        next(it)
    it.set_state(s)
    got = [int(x["a"]) for x in it]
    assert got == [1, 2, 3, 4, 5], got
