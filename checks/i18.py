"""I18: file sources return exactly the stored records, also after restores."""
import itertools
import os
import shutil
import struct
import tempfile
import traceback

import numpy as np

from mc import catalog as cat
from mc import report
from mc import simrun
from mc.report import Hang, Violation, hang_guard

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of file layouts (records, row groups, files, every truncation"
             " point) and of all histories of next, save, restore and restore in a new iterator up"
             " to a depth, on the real readers over real files, against the list of what was stored")
RULE = ("TFRecord: all files of up to n records of lengths from a set, every history up to a depth,"
        " every truncation point from every saved position; Parquet: all layouts of row groups"
        " (empty ones included) of one and of several files, every history; ArrayRecord, range and"
        " shared memory sources: all small contents, every index and every way of access")
ASSUMPTIONS = ("checksums are not verified (stated in the code), so damage other than truncation is"
               " out of scope", "pyarrow and array_record read back what they wrote")

pre_boot = simrun.install


# --- TFRecord --------------------------------------------------------------------


def crc32c_table():
  t = []
  for i in range(256):
    c = i
    for _ in range(8):
      c = (c >> 1) ^ (0x82F63B78 if c & 1 else 0)
    t.append(c)
  return t


TABLE = crc32c_table()


def masked_crc(data):
  c = 0xFFFFFFFF
  for b in data:
    c = TABLE[(c ^ b) & 0xFF] ^ (c >> 8)
  c ^= 0xFFFFFFFF
  return (((c >> 15) | (c << 17)) + 0xA282EAD8) & 0xFFFFFFFF


def frame(rec):
  n = struct.pack("<Q", len(rec))
  return n + struct.pack("<I", masked_crc(n)) + rec + struct.pack("<I", masked_crc(rec))


def content(i, n):
  """Records that look like framing, are empty, or contain anything."""
  return (bytes([i]) + b"\0\xff\n" + struct.pack("<Q", 3) + bytes(range(256)) * 5)[:n]


def histories(depth):
  """n(ext), s(ave), r(estore the last saved), f(resh iterator, restored)."""
  for d in range(depth + 1):
    yield from ("".join(h) for h in itertools.product("nsrf", repeat=d))


def run_history(res, build, want, h, same):
  it = iter(build())
  pos, saved, spos = 0, it.get_state(), 0
  for k, op in enumerate(h + "n" * (len(want) + 2)):
    res.transitions += 1
    if op == "s":
      saved, spos = it.get_state(), pos
    elif op in "rf":
      if op == "f":
        close(it)
        it = iter(build())
      it.set_state(saved)
      pos = spos
    else:
      try:
        got = next(it)
      except StopIteration:
        if pos < len(want):
          raise Violation(f"history {h}: ends at step {k} before record {pos}")
        continue
      if pos >= len(want):
        raise Violation(f"history {h}: step {k} gives {got!r} after the last record")
      if not same(got, want[pos]):
        raise Violation(f"history {h}: step {k} gives {got!r} instead of {want[pos]!r}")
      pos += 1
  close(it)
  res.executions += 1
  res.states += 1


def close(it):
  if hasattr(it, "close"):
    it.close()


def tfrecord_case(res, tmp, lens, depth):
  E = cat.g().experimental
  recs = [content(i, n) for i, n in enumerate(lens)]
  data = b"".join(frame(r) for r in recs)
  path = os.path.join(tmp, "f.tfrecord")
  write(path, data)
  build = lambda p=path: E.TFRecordIterDataset(p)
  for h in histories(depth):
    run_history(res, build, recs, h, lambda a, b: type(a) is bytes and a == b)
  # Every truncation point.
  ends = list(itertools.accumulate((len(frame(r)) for r in recs), initial=0))
  states = []
  it = iter(build())
  for _ in range(len(recs) + 1):
    states.append(it.get_state())
    next(it, None)
  close(it)
  cutpath = os.path.join(tmp, "cut.tfrecord")
  for cut in range(len(data)):
    write(cutpath, data[:cut])
    for start, s in enumerate(states):
      if ends[start] > cut:
        continue
      it = iter(build(cutpath))
      if start:
        it.set_state(s)
      whole = [r for i, r in enumerate(recs) if i >= start and ends[i + 1] <= cut]
      where = f"truncated to {cut} of {len(data)} bytes, from record {start}"
      for r in whole:
        got = next(it)
        if got != r:
          raise Violation(f"{where}: gives {got!r} instead of {r!r}")
      try:
        got = next(it)
        raise Violation(f"{where}: gives {got!r} from a partial record")
      except StopIteration:
        if cut not in ends:
          raise Violation(f"{where}: ends without an error") from None
      except Violation:
        raise
      except Exception:  # pylint: disable=broad-except
        if cut in ends:
          raise
      for _ in range(2):
        try:
          got = next(it)
        except Exception:  # pylint: disable=broad-except
          continue
        raise Violation(f"{where}: gives {got!r} after the end or an error")
      # The iterator still works.
      it.set_state(s)
      got = [next(it) for _ in whole]
      if got != whole:
        raise Violation(f"{where}: restored after the error gives {got!r}")
      close(it)
      res.executions += 1
      res.states += 1
      res.transitions += 2 * len(whole) + 3


def write(path, data):
  with open(path, "wb") as f:
    f.write(data)


# --- Parquet ----------------------------------------------------------------------


def row(i, kind):
  if kind == "ints":
    return {"a": i, "b": 2 ** 53 + 1 + i}
  if kind == "mixed":
    return {"s": None if i % 3 == 1 else f"r{i}\0x"[: i % 4 + 1], "y": bytes([i, 0]),
            "f": i / 3, "l": list(range(i % 3)), "t": i % 2 == 0, "a": i}
  return {"a": None if i % 3 == 1 else 2 ** 53 + 1 + i}  # "nulls"


def write_parquet(path, groups, kind, start=0):
  import pyarrow as pa
  import pyarrow.parquet as pq
  rows = [row(start + i, kind) for i in range(sum(groups))]
  types = {"a": pa.int64(), "b": pa.int64(), "s": pa.string(), "y": pa.binary(),
           "f": pa.float64(), "l": pa.list_(pa.int64()), "t": pa.bool_()}
  schema = pa.schema([(k, types[k]) for k in row(0, kind)])
  w = pq.ParquetWriter(path, schema)
  i = 0
  for n in groups:
    w.write_table(pa.Table.from_pylist(rows[i:i + n], schema=schema))
    i += n
  w.close()
  return rows


def same_row(a, b):
  if list(a) != list(b):
    return False
  for k, v in b.items():
    u = a[k]
    if isinstance(v, list):
      if list(u) != v:
        return False
    elif v is None:
      if u is not None:
        return False
    elif isinstance(v, (bytes, str)):
      if type(u) is not type(v) or u != v:
        return False
    elif isinstance(v, int) and not isinstance(v, bool) and not isinstance(u, (int, np.integer)):
      return False
    elif u != v:
      return False
  return True


def parquet_case(res, tmp, files, kind, depth):
  E = cat.g().experimental
  paths, lists, start = [], [], 0
  for i, groups in enumerate(files):
    paths.append(os.path.join(tmp, f"f{i}.parquet"))
    lists.append(write_parquet(paths[-1], groups, kind, start))
    start += sum(groups)
  want = cat.interleave_model([list(x) for x in lists], min(16, len(lists))) if lists else []
  build = lambda: E.ParquetIterDataset(paths[0] if len(paths) == 1 else paths)
  if len(files) == 1:
    for h in histories(depth):
      run_history(res, build, want, h, same_row)
  else:
    for h in histories(depth):
      simrun.call(lambda: run_history(res, build, want, h, same_row))
    for w in (1, 2, 3):
      simrun.call(lambda: split_files(res, build, lists, w))


def split_files(res, build, lists, w):
  """Workers read different files."""
  from grain._src.python.dataset.transformations import prefetch
  for how in ("threads", "processes"):
    d = build()
    if how == "threads":
      d = prefetch.multithread_prefetch(d, w, 1)
    else:
      d = d.mp_prefetch(cat.g().MultiprocessingOptions(num_workers=w, per_worker_buffer_size=1))
    it = iter(d)
    got = list(it)
    close(it)
    per = [cat.interleave_model([list(x) for x in lists[i::w]], max(1, min(16, len(lists[i::w]))))
           if lists[i::w] else [] for i in range(w)]
    want = cat.interleave_model(per, w)
    if len(got) != len(want) or not all(same_row(a, b) for a, b in zip(got, want)):
      raise Violation(f"{w} {how}: {got!r} instead of {want!r}")
    res.executions += 1
    res.transitions += len(got)


# --- random access sources -----------------------------------------------------------


def array_record_case(res, tmp, files, via):
  from array_record.python import array_record_module as arm
  g = cat.g()
  recs, paths = [], []
  for i, lens in enumerate(files):
    p = os.path.join(tmp, f"f{i}.array_record")
    w = arm.ArrayRecordWriter(p, "group_size:1" if via != "big_groups" else "group_size:3")
    for k, n in enumerate(lens):
      recs.append(content(10 * i + k, n))
      w.write(recs[-1])
    w.close()
    paths.append(p)
  src = g.sources.ArrayRecordDataSource(paths if len(paths) > 1 else paths[0])
  ctx = f"{files} {via}"
  expect(len(src) == len(recs), f"{ctx}: length {len(src)}")
  if via == "loader":
    from grain import python as py
    s = py.IndexSampler(len(recs), shard_options=py.NoSharding(), shuffle=False, num_epochs=2,
                        seed=1)
    got = [x for x in py.DataLoader(data_source=src, sampler=s, worker_count=0,
                                    read_options=cat.ro())]
    expect(got == recs + recs, f"{ctx}: loader gives {got}")
  else:
    d = g.MapDataset.source(src)
    n = len(recs)
    for order in itertools.permutations(range(n), min(n, 3)):
      got = [d[i] for i in order]
      expect(got == [recs[i] for i in order], f"{ctx}: {order} gives {got}")
      got = d._getitems(list(order))  # pylint: disable=protected-access
      expect(list(got) == [recs[i] for i in order], f"{ctx}: together {order} gives {got}")
      res.transitions += 2 * len(order)
    for build in (lambda: d.to_iter_dataset(cat.ro()),):
      for h in histories(2):
        run_history(res, build, recs, h, lambda a, b: a == b)
  res.executions += 1
  res.states += 1


def expect(ok, text):
  if not ok:
    raise Violation(text)


def range_case(res, tmp, start, stop, step):
  del tmp
  g = cat.g()
  r = range(start, stop, step)
  if (stop - start) / step <= -1:
    return  # refused
  src = g.sources.RangeDataSource(start, stop, step)
  ctx = f"RangeDataSource({start}, {stop}, {step})"
  expect(len(src) == len(r), f"{ctx}: length {len(src)}")
  for i in range(len(r)):
    expect(src[i] == r[i], f"{ctx}[{i}] is {src[i]}")
    expect(src[np.int64(i)] == r[i], f"{ctx}[int64({i})] is {src[np.int64(i)]}")
  for i in (-1, len(r), len(r) + 1):
    try:
      src[i]
    except IndexError:
      continue
    raise Violation(f"{ctx}[{i}] is {src[i]}")
  res.executions += 1
  res.states += 1
  res.transitions += 2 * len(r) + 3


def shared_case(res, tmp, values):
  del tmp
  g = cat.g()
  src = g.sources.SharedMemoryDataSource(list(values))
  try:
    other = g.sources.SharedMemoryDataSource(name=src.shm.name)
    for s in (src, other):
      expect(len(s) == len(values), f"{values}: length {len(s)}")
      for i, v in enumerate(values):
        expect(s[i] == v and type(s[i]) is type(v), f"{values}: [{i}] is {s[i]!r}")
    d = g.MapDataset.source(other)
    got = list(d.repeat(2)) if values else []
    # Nones are missing elements of a dataset.
    expect(got == [v for v in values if v is not None] * 2, f"{values}: read {got}")
    other.close()
  finally:
    src.close()
    src.unlink()
  res.executions += 1
  res.states += 1
  res.transitions += 2 * len(values)


def groups(total, most, size):
  for k in range(most + 1):
    for g in itertools.product(range(size + 1), repeat=k):
      if sum(g) <= total:
        yield g


def configs(tier):
  q = tier == "quick"
  out = []
  lens = (0, 1, 12, 300) if q else (0, 1, 4, 12, 16, 300)
  for n in range(4):
    for ls in itertools.product(lens if n < 3 else lens[:3] if q else lens[:4], repeat=n):
      out.append(("tfrecord", ls, 4 if q else 6 if n > 1 else 5))
  for gs in groups(4, 3, 2) if q else groups(5, 4, 3):
    out.append(("parquet", (gs,), "ints", 3 if q else 5))
    if len(gs) <= 2:
      out.append(("parquet", (gs,), "mixed", 3 if q else 4))
  out.append(("parquet", ((0,) * 1500 + (2,),), "ints", 1))
  for fs in ([(2,), ()], [(0,), (1, 1)], [(), ()], [(1,), (2, 1), (0, 1)], [(2, 0, 1), (1,)],
             [(2, 1)] * 3):
    out.append(("parquet", tuple(fs), "ints", 2 if q else 4))
  out.append(("parquet", (), "ints", 1))
  out.append(("parquet", tuple((1,) if i % 2 else (0, 2) for i in range(18)), "ints", 1))
  out.append(("parquet", ((3,),), "nulls", 1))
  for fs in ([(1, 0, 12)], [(5,)], [(3, 4), (1,)], [(2, 2, 2), (7,), (1, 1)]):
    for via in ("small_groups", "big_groups", "loader"):
      out.append(("array_record", tuple(fs), via))
  for a, b in itertools.product(range(-3, 5), repeat=2):
    for s in (-3, -2, -1, 1, 2, 3, 5):
      out.append(("range", a, b, s))
  vals = (None, 0, -7, 2.5, True, "", "ä", b"", b"\1\0\2")
  for n in range(1, 3 if q else 4):
    for v in itertools.product(vals, repeat=n):
      out.append(("shared", v))
  return out


CASES = {"tfrecord": tfrecord_case, "parquet": parquet_case, "array_record": array_record_case,
         "range": range_case, "shared": shared_case}


def label(c):
  t = str(c)
  return t if len(t) < 300 else f"{t[:300]}..."


def cases(tier):
  cs = configs(tier)
  heavy = [c for c in cs if c[0] in ("tfrecord", "parquet")]
  light = [c for c in cs if c[0] not in ("tfrecord", "parquet")]
  return report.chunked(heavy, 48, "files") + report.chunked(light, 6, "sources")


def explore(res, name, cs):
  for c in cs:
    tmp = tempfile.mkdtemp(prefix="mc_i18_")
    key = "nulls among integers" if c[0] == "parquet" and c[2] == "nulls" else label(c)
    try:
      with hang_guard(200):
        CASES[c[0]](res, tmp, *c[1:])
        res.distinct += 1
    except Violation as e:
      if key != label(c) and "gives {.a.: np.float64" not in str(e).replace("'", "."):
        key = label(c)
      res.violation(key, f"{label(c)}: {e}", {"case": name, "config": label(c)})
    except Hang as e:
      res.violation(label(c), f"{label(c)}: does not terminate: {e}", {"case": name})
    except Exception as e:  # pylint: disable=broad-except
      tb = "".join(traceback.format_exc().splitlines(True)[-12:])
      res.violation(label(c), f"{label(c)}: raises {type(e).__name__}: {e}\n{tb}",
                    {"case": name, "config": label(c)})
    finally:
      shutil.rmtree(tmp, ignore_errors=True)
  res.samples.append(label(cs[0]) if cs else "")
