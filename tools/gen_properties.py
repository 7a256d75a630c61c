"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

D = "grain/_src/python/dataset/"
T = D + "transformations/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
  P.append({
      "id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text},
      "why_tests_cant": why,
      "anchors": {"files": files,
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"observe_at": observe} if observe else {}),
                  "hook_needed": hook}})


# --- checkpoints --------------------------------------------------------------
p("C01", "A checkpoint restored into a fresh iterator resumes exactly there",
  "For every pipeline built from the library's single-process transformations, a state captured at any position and handed - directly or through JSON - to a fresh iterator of the same pipeline makes that iterator produce exactly the elements that had not been produced yet, in order, and then end. This also holds for a state captured by an iterator that was itself restored, before or after its first element, and after the end of the data.",
  ["histories", "programs"],
  "All pipelines of one or two stacked transformations over small sources; all histories of advance / save / restore-fresh / restore-through-JSON up to a length bound or to a fixpoint of reachable states.",
  "Tests restore at each position once, from an uninterrupted run, for one configuration of one transformation; states taken right after a restore, at batch and window edges and past the end, and stacked transformations are hardly sampled.",
  [D + "dataset.py", T + "batch.py", T + "rebatch.py", T + "flatmap.py", T + "shuffle.py", T + "cache.py", T + "repeat.py", T + "packing.py", T + "packing_concat_then_split.py", T + "mix.py", T + "zip.py", T + "filter.py", T + "limit.py"],
  [("iterator get_state/set_state pairs", "every DatasetIterator under transformations/")],
  ["DatasetIterator.get_state", "DatasetIterator.set_state", "next()"])
p("C02", "A live iterator can be rewound to any saved state; saved states never change",
  "Restoring any earlier or later saved state into a live iterator - any number of times, in any order, also after the end of the data - makes it continue exactly as it did when that state was captured. Neither advancing, saving nor restoring ever changes a state that was captured before.",
  ["histories", "programs"],
  "All histories of advance / save into one of two slots / restore in place (also via JSON) / start over, up to a length bound or to a fixpoint, over the same pipelines as C01.",
  "Leftover buffers and aliased containers only show up after particular sequences of saves and restores on one object; tests restore into new iterators or once in place.",
  [D + "dataset.py", T + "flatmap.py", T + "cache.py", T + "repeat.py", T + "interleave.py", T + "packing.py", T + "packing_concat_then_split.py"],
  [("set_state resets derived buffers", "every DatasetIterator under transformations/")],
  ["DatasetIterator.get_state", "DatasetIterator.set_state", "next()"])
p("C03", "Interleaving reads every dataset once, in rotation, and checkpoints exactly",
  "Interleaving datasets with any cycle length yields each element of each dataset exactly once, rotating over at most that many open datasets and opening the next one when one ends, for any mix of lengths including empty datasets and an empty list. States captured at any point resume exactly, in place or fresh, and repeated passes over the data are identical.",
  ["histories", "configurations"],
  "All tuples of up to four dataset lengths from a small range x cycle lengths x histories of advance / save / restore, plus repetition of the interleaved pipeline.",
  "The number of length/cycle/restore-point combinations; tests use a few hand-picked lengths and one pass.",
  [T + "interleave.py", T + "repeat.py"],
  [("slot bookkeeping of open iterators", T + "interleave.py:InterleaveDatasetIterator")],
  ["next()", "DatasetIterator.get_state"])
p("C04", "Positions set by element index agree with positions reached by iterating",
  "Moving an iterator to element index i makes it continue exactly as if i elements had been consumed, and the reported index always equals the number of elements consumed, on every pipeline that supports indexed positions and in any history mixing both with checkpoints.",
  ["histories", "configurations"],
  "All pipelines supporting indexed positions x all histories of advance / set index / get index / save / restore up to a bound.",
  "Tests set an index once on a fresh iterator; interaction with prefetch buffers, batching and later checkpoints is not covered.",
  [D + "dataset.py", T + "prefetch.py", T + "batch.py", T + "process_prefetch.py"],
  [("index translation per transformation", "DatasetIterator._set_next_index/_get_next_index")],
  ["grain.experimental.set_next_index", "grain.experimental.get_next_index"])
p("C05", "DataLoader checkpoints resume exactly, for every shard, operations and position",
  "The bytes captured from a data loader iterator at any position, restored in any history into a fresh or live iterator of an equal loader, yield exactly the remaining elements; restoring into a loader with a different worker count, record order or source (as described by their repr) is refused and leaves it undisturbed. Loaders that flat-map (whose checkpoints are those of the underlying dataset) are not refused, and legacy operations with memory of their own are not checkpointed.",
  ["histories", "configurations"],
  "All small (records, epochs, shards, operations) loaders x all histories of advance/save/restore; worker counts above zero with simulated worker processes.",
  "The per-worker index arithmetic of the state has an edge for each shard count, worker count and exhausted worker; tests pick a few.",
  ["grain/_src/python/data_loader.py", "grain/_src/python/samplers.py"],
  [("state conversion to last seen indices", "grain/_src/python/data_loader.py:_DataLoaderStateDatasetIterator")],
  ["DataLoaderIterator.get_state", "DataLoaderIterator.set_state"])
p("C06", "Elastic iteration conserves data across changes of the number of hosts",
  "When a sharded elastic pipeline is checkpointed on m hosts at any progress and resumed on n hosts, the elements produced before and after together are each element of the data exactly once per epoch, whatever m, n, and however often the host count changes, with checkpoints going through JSON files.",
  ["histories", "configurations"],
  "All small shard counts, dataset lengths, host counts, per-host progress at the checkpoint, and two successive rescalings.",
  "Tests use one or two host-count changes at one progress point.",
  [D + "elastic_iterator.py", "grain/_src/python/checkpoint/elastic_checkpoint.py", T + "interleave.py"],
  [("shard-state redistribution", D + "elastic_iterator.py:ElasticIterDatasetIterator"), ("shard files", "grain/_src/python/checkpoint/elastic_checkpoint.py")],
  ["ElasticIterator", "CheckpointHandler.save/restore"])
p("C07", "Saved checkpoint files restore the state of the moment of saving, or nothing",
  "A checkpoint written to a directory restores exactly the position at the time save was called - also when the iterator advances while the write is still pending - for any number of processes sharing the directory, and with a missing or truncated file the restore raises and leaves the iterator where it was.",
  ["crash_points", "schedules", "configurations"],
  "All write truncation points of the state file, all orders of background-save steps against iterator steps, all process counts up to a bound.",
  "Tests write and read back one complete checkpoint.",
  ["grain/_src/python/checkpoint/handler.py", "grain/_src/python/checkpoint/base.py", D + "dataset.py", "grain/_src/python/data_loader.py"],
  [("state is serialised before the background write", "grain/_src/python/checkpoint/base.py:background_save")],
  ["CheckpointHandler.save", "CheckpointHandler.restore", "DatasetIterator.save/load"])

# --- schedules ----------------------------------------------------------------
p("S01", "Background-thread prefetch is invisible under every thread schedule",
  "An iterator prefetching in a background thread yields the same elements, errors and end as without prefetch, its captured states always correspond to the elements handed out, and no call blocks forever, for every interleaving of the background thread with next, save, restore, index-setting, start and close calls.",
  ["schedules", "histories"],
  "All interleavings (at line granularity of the library's prefetch code) up to a preemption bound, for all short call sequences and buffer sizes.",
  "Tests run a handful of native schedules; the windows (state read while the producer advances, close racing with a full buffer) are microseconds wide.",
  [T + "prefetch.py"],
  [("bounded queue hand-over and stop event", T + "prefetch.py:ThreadPrefetchDatasetIterator")],
  ["next()", "get_state", "set_state", "start_prefetch", "close"])
p("S02", "Parallel reads keep order, content and position for any thread count and buffer",
  "Iterating a random-access dataset with any number of read threads and any buffer size yields exactly the elements of sequential iteration, skips exactly the filtered ones, and reports states that resume exactly, for every order in which the reads complete.",
  ["schedules", "histories", "configurations"],
  "All completion orders of reads over a controlled executor x all short histories of next / save / restore / start / set index / close x thread counts and buffer sizes.",
  "Tests use real pools where reads finish in submission order; out-of-order completion with restores in between is not exercised.",
  [T + "prefetch.py"],
  [("ordered buffer of futures", T + "prefetch.py:PrefetchDatasetIterator")],
  ["next()", "get_state", "set_state"])
p("S03", "Multi-process prefetch is lossless and never hangs under any schedule",
  "Prefetching through a worker process yields exactly the worker pipeline's elements in order, up to its end or its first error, after which it stays ended until its position is set, with states that resume exactly, for every interleaving of worker, queue delivery and consumer calls (next, save, restore, start, index-setting, close). A worker error or death surfaces as an exception and no call waits forever.",
  ["schedules", "fault_sequences"],
  "All interleavings up to a deviation bound of the worker loop run as a controlled thread over simulated process queues (with delayed delivery), for all short call sequences, plus worker errors and deaths at every point.",
  "Real processes give a few schedules per test; a delayed message or a worker dying between two protocol steps is not reproducible in tests.",
  [T + "process_prefetch.py", "grain/_src/python/ipc/queue.py"],
  [("request/acknowledge protocol for restores", T + "process_prefetch.py:ProcessPrefetchDatasetIterator"), ("worker loop", T + "process_prefetch.py:_put_dataset_elements_in_buffer")],
  ["next()", "get_state", "set_state", "close"])
p("S04", "Resizable queues never exceed their capacity, lose items or deadlock",
  "A resizable queue delivers every item exactly once in first-in first-out order, never accepts an item while it holds at least its current capacity, never refuses one while it holds fewer, and never leaves a call blocked that could proceed, for every interleaving of producers, consumers and capacity changes.",
  ["schedules", "histories"],
  "All operation sequences of put / get / resize up to a depth (single-threaded), and all interleavings of small concurrent programs.",
  "The capacity accounting depends on the order of shrink and grow operations relative to puts and gets; tests do one shrink or one grow.",
  ["grain/_src/python/ipc/variable_size_queue.py"],
  [("semaphore accounting with pending shrink", "grain/_src/python/ipc/variable_size_queue.py:VariableSizeMultiprocessingQueue"), ("condition variable capacity", "grain/_src/python/ipc/variable_size_queue.py:VariableSizeQueue")],
  ["put", "get", "set_max_size", "qsize"])
p("S05", "Closing a pipeline stops everything it started, once and for all",
  "After closing an iterator at any moment no thread, worker or file-owning child iterator started by the pipeline stays alive or is started later, closing again has no effect, close returns under every schedule, and iterating afterwards raises instead of yielding or blocking.",
  ["schedules", "histories"],
  "All pipelines of the catalogue that own background resources x all positions and phases at which close is called x interleavings up to a bound.",
  "Leaks and missed children are not observable from outputs; tests check a few pipelines at one point.",
  [D + "dataset.py", T + "prefetch.py", T + "interleave.py", T + "process_prefetch.py", D + "elastic_iterator.py"],
  [("close propagation", D + "dataset.py:DatasetIterator.close")],
  ["DatasetIterator.close"])
p("S06", "Shared memory blocks are released exactly once and never while still readable",
  "Every shared memory block made for handing an array between processes is unlinked exactly once after its consumer has dropped the array, never before, and the number of deletions waiting in the background never exceeds the configured limit, for every order of consumers dropping arrays and of background deletions running.",
  ["schedules", "histories"],
  "All interleavings of releasing threads with the deletion pool, for small numbers of arrays and limits.",
  "Tests release one array at a time; the hand-over between the releasing thread and the pool is not schedulable in them.",
  ["grain/_src/python/ipc/shared_memory_array.py"],
  [("semaphore-limited async unlink", "grain/_src/python/ipc/shared_memory_array.py:SharedMemoryArray")],
  ["SharedMemoryArray", "unlink_shm"])
p("S07", "Concurrent access to one dataset gives every reader its own correct element",
  "When several threads access elements of the same random-access pipeline at the same time, each gets exactly the element that a lone sequential access of that index gives, random transformations included, for every interleaving.",
  ["schedules"],
  "All interleavings up to a preemption bound of two or three threads reading chosen indices through every random-access transformation.",
  "Shared generators or caches in a transformation corrupt results only under a particular interleaving inside one call.",
  [T + "map.py", T + "batch.py", T + "shuffle.py", T + "mix.py", T + "source.py"],
  [("pool of random generators", T + "map.py:RngPool")],
  ["MapDataset.__getitem__"])

# --- faults -------------------------------------------------------------------
p("F01", "An element that fails is reported in its place and costs nothing else",
  "If producing one element raises, the exception reaches the consumer at exactly that element's place and no other element is lost, duplicated or reordered before it; states captured before or after the failure, restored elsewhere, resume without losing or repeating an element other than the failed one.",
  ["fault_sequences", "histories"],
  "All pipelines of the catalogue x all failing positions (single and pairs) x read-thread and buffer settings x states taken at every position.",
  "Tests raise at one element and stop at the exception.",
  [T + "prefetch.py", T + "batch.py", T + "flatmap.py", T + "shuffle.py", T + "mix.py"],
  [("exception hand-over in buffers", T + "prefetch.py")],
  ["next()", "get_state"])

# --- inputs / configurations ----------------------------------------------------
p("I01", "The index shuffle is a bijection on its range for every length and seed",
  "For every maximum index, seed and accepted number of rounds, shuffling the indices 0..max gives each of 0..max exactly once, the same on every call; a one-element range maps to itself.",
  ["inputs"],
  "All maximum indices up to a bound and around every power of two, several seeds and rounds, all indices.",
  "Tests try a few sizes; a collision at one boundary size silently drops and repeats records.",
  ["grain/_src/python/experimental/index_shuffle/index_shuffle.cc"],
  [("variable-width block cipher with cycle walking", "grain/_src/python/experimental/index_shuffle/index_shuffle.cc")],
  ["index_shuffle"])
p("I02", "Shuffled datasets show every element exactly once per epoch, reproducibly",
  "A globally shuffled random-access dataset, also when sliced, repeated or batched afterwards, contains each parent element exactly once in each epoch, in an order that depends only on the seed and the epoch, with different epochs and different seeds shuffled differently; without reseeding, repeats replay the first epoch.",
  ["inputs", "configurations"],
  "All lengths up to a bound x seeds x epochs x seed-derivation paths (explicit, dataset seed, nested shuffles).",
  "Tests check one length and one or two epochs.",
  [T + "shuffle.py", T + "repeat.py", D + "dataset.py"],
  [("per-epoch seed derivation", T + "shuffle.py:ShuffleMapDataset")],
  ["MapDataset.shuffle", "MapDataset.repeat"])
p("I03", "Window shuffling permutes within each window only, reproducibly",
  "Window shuffling, of random-access datasets as of streams, yields within each consecutive window of the input exactly that window's elements in an order fixed by the seed and the window's number, so nothing is lost, repeated or moved to another window, for every length, window size and 32-bit seed.",
  ["inputs", "configurations"],
  "All lengths and window sizes up to a bound x seeds including the extremes of the accepted range.",
  "Tests use one length and window; partial last windows, and extreme seeds are corner cases.",
  [T + "shuffle.py"],
  [("window seed derivation and partial windows", T + "shuffle.py")],
  ["WindowShuffleMapDataset", "WindowShuffleIterDataset"])
p("I04", "Sharding splits the data into disjoint, covering, balanced, contiguous parts",
  "Splitting any number of examples over any number of shards gives contiguous, disjoint, in-order intervals that cover all examples with sizes differing by at most one, or, when the remainder is dropped, equal sizes with fewer examples dropped than there are shards.",
  ["inputs", "configurations"],
  "All example counts and shard counts up to a bound, both remainder policies, and all slice-based shardings of random-access datasets.",
  "Off-by-one errors appear for particular residues only.",
  ["grain/_src/core/sharding.py", T + "slice.py"],
  [("even_split", "grain/_src/core/sharding.py")],
  ["grain.sharding.even_split", "MapDataset.slice"])
p("I05", "Samplers visit every record exactly once per epoch, sharded without overlap",
  "Over all shards, a sampler's epochs each contain every record key exactly once, every global index at most once and aligned with its shard, in an order depending only on seed and epoch, with per-element random generators that differ between elements and do not depend on sharding or worker layout.",
  ["inputs", "configurations"],
  "All record counts, shard counts, epoch counts, shuffle and seed settings up to a bound.",
  "Tests check a few triples.",
  ["grain/_src/python/samplers.py"],
  [("index to record-key mapping", "grain/_src/python/samplers.py:IndexSampler"), ("sequential sampler", "grain/_src/python/samplers.py:SequentialSampler")],
  ["IndexSampler.__getitem__"])
p("I06", "A DataLoader delivers each record exactly once per epoch over shards and workers",
  "The union over all shards of what data loaders deliver is, for every worker count, shard count, remainder policy and chain of operations, exactly the transformed records of each epoch, deterministically ordered, with only the agreed remainder dropped, and the result for one worker count is reproducible run after run.",
  ["configurations", "inputs"],
  "All small record counts x shard counts x remainder policies x worker counts (workers simulated in-process) x operation chains.",
  "Tests spot-check few combinations because each worker is an OS process.",
  ["grain/_src/python/data_loader.py", "grain/_src/python/load.py", T + "process_prefetch.py", T + "interleave.py"],
  [("sampler dataset with sharding", "grain/_src/python/data_loader.py:_SamplerMapDataset"), ("worker slicing", T + "prefetch.py:_set_slice_iter_dataset")],
  ["DataLoader.__iter__"])
p("I07", "Random-access transformations obey their list semantics at every index and epoch",
  "Slicing, indexing by a sequence, concatenating, repeating, mapping, filtering, batching, zipping, flat-mapping and selecting on a random-access dataset, alone or stacked, give at every index - also beyond the first epoch - the element that the same operations on plain Python lists give, with matching lengths.",
  ["programs", "inputs"],
  "All one- and two-deep stacks of the random-access transformations over all source lengths up to a bound, all indices of three epochs.",
  "Tests check transformations one at a time within the first epoch.",
  [T + "slice.py", T + "repeat.py", T + "source.py", T + "batch.py", T + "zip.py", T + "flatmap.py", T + "mix.py", T + "filter.py", T + "map.py"],
  [("index arithmetic", "MapDataset.__getitem__ implementations")],
  ["MapDataset.__getitem__", "len()"])
p("I08", "Reading many elements at once equals reading them one by one",
  "A batched read of any list of indices - unordered, repeated, across epochs - returns exactly the elements that individual reads return, in the same order, for every stack of random-access transformations and for sources with and without native batched reads.",
  ["programs", "inputs"],
  "All one- and two-deep stacks x all index lists up to a length over two epochs.",
  "Tests compare a single index list per transformation.",
  [T + "source.py", T + "batch.py", T + "mix.py", T + "slice.py", T + "shuffle.py", T + "prefetch.py", "grain/_src/python/data_sources.py"],
  [("_getitems implementations", "MapDataset._getitems")],
  ["batched reads in batch and prefetch"])
p("I09", "Stream transformations equal their list semantics, alone and stacked",
  "Mapping, indexed mapping, filtering, batching, re-batching, flat-mapping, limiting, repeating, caching and zipping streams, alone or stacked in any order, produce exactly what the same operations on plain Python lists produce, for every input length including zero, and repeated iteration of the same dataset gives the same stream.",
  ["programs", "inputs"],
  "All stacks of up to three transformations x all source lengths up to a bound.",
  "Tests check each transformation alone; stacks with partial batches, empty inputs or early ends are rarely combined.",
  [T + "batch.py", T + "rebatch.py", T + "flatmap.py", T + "limit.py", T + "repeat.py", T + "cache.py", T + "zip.py", T + "filter.py", T + "map.py"],
  [("__next__ implementations", "transformations/")],
  ["IterDataset iteration"])
p("I10", "Mixing draws each constituent in order, without repeats, in proportion",
  "A mix takes each constituent's elements in order without skipping or repeating any, every prefix of a mix of n constituents contains each of them within one element (n = 2) or n-1 elements of its share of the weights, and it ends when a constituent it needs next is exhausted - a random-access mix's length being such that no constituent element occurs twice per epoch.",
  ["inputs", "configurations"],
  "All weight tuples over a small grid (integers and fractions) x all length tuples up to a bound x epochs.",
  "Rounding of weights and lengths has corner cases at particular combinations.",
  [T + "mix.py"],
  [("proportional selection", T + "mix.py:_dataset_and_key_of_next_element"), ("length computation", T + "mix.py:SelectionWithProportionsMap")],
  ["MapDataset.mix", "IterDataset.mix"])
p("I11", "Bin packing keeps every sequence whole, once, labelled and within capacity",
  "First-fit and best-fit packing place every input sequence unsplit in exactly one bin together with all its features, with correct segment ids, positions, padding, alignment and meta features, no bin above its capacity or sequence limit, bins chosen by the stated rule, and shuffling only reorders bins within a packed batch.",
  ["inputs", "configurations"],
  "All sequences of element lengths up to a count and length bound x bin counts x capacities x alignment/limit/shuffle options, against a reference packer.",
  "The space of length sequences; tests use a handful.",
  [T + "packing.py", T + "packing_packed_batch.py", "grain/_src/python/experimental/example_packing/packing.py"],
  [("bin selection", T + "packing_packed_batch.py")],
  ["FirstFitPackIterDataset", "BestFitPackIterDataset", "PackAndBatchOperation"])
p("I12", "Concat-then-split packing neither loses, repeats nor reorders a token",
  "Concatenate-then-split packing outputs for every feature exactly the input tokens in order (full-length elements possibly passing first, and beginning-of-sequence replacement applied where asked), each row within its length, with segment ids and positions that identify whose tokens they are.",
  ["inputs", "configurations"],
  "All sequences of element lengths up to a bound for one and two features (equal, unequal and meta) x target lengths x options, against conservation laws and a reference.",
  "Splitting one element several times over several features depends on length combinations no test lists.",
  [T + "packing_concat_then_split.py"],
  [("split bookkeeping", T + "packing_concat_then_split.py:_CtsElement.split")],
  ["ConcatThenSplitIterDataset"])
p("I13", "Random transformations are a pure function of seed, stage and element index",
  "What a random transformation does to an element depends only on the seed, its place in the pipeline and the element's index: not on how, in which order, how often or by how many threads the element is read, nor on a checkpoint restore, while different indices, stages and seeds get independent generators.",
  ["configurations", "histories"],
  "All access patterns (single, batched, iterated, restored, threaded) x seeds x stacked random stages x index transformations in between.",
  "Tests compare one access path with fixed expected values.",
  [T + "map.py", D + "dataset.py", T + "source.py"],
  [("seed derivation from the parent chain", D + "dataset.py:_Dataset._default_seed"), ("rng pool", T + "map.py:RngPool")],
  ["random_map", "seed"])
p("I14", "The declared element specification describes the elements produced",
  "Wherever a pipeline reports an element specification, every produced element has exactly that structure, those data types and shapes (unknown dimensions matching anything).",
  ["programs", "inputs"],
  "All stacks of up to two transformations that support specifications x element structures x lengths.",
  "Tests compare the specification of single transformations to a constant.",
  [D + "dataset.py", T + "batch.py", T + "source.py", T + "zip.py", T + "rebatch.py"],
  [("_element_spec properties", "datasets")],
  ["grain.experimental.get_element_spec"])
p("I15", "Arrays cross process boundaries through shared memory unchanged",
  "An array handed over through shared memory arrives with the same shape, data type and content, whatever its shape, type, memory order, or being a view or copy of another shared array, and datasets produced with shared memory output equal those produced without.",
  ["inputs", "histories"],
  "All derivation sequences (view, slice, transpose, copy, reshape, pickle) up to a depth over a set of shapes and types.",
  "Tests round-trip freshly made contiguous arrays.",
  ["grain/_src/python/ipc/shared_memory_array.py", T + "batch.py", T + "process_prefetch.py"],
  [("metadata round trip", "grain/_src/python/ipc/shared_memory_array.py:SharedMemoryArrayMetadata")],
  ["SharedMemoryArray", "batch with shared memory"])
p("I16", "Splitting a pipeline over workers partitions its data, in a fixed order",
  "For every number of workers, with interleaved or sequential splitting, the workers' shares of a random access pipeline are disjoint and together cover exactly its elements (sequentially split shares being consecutive parts), iterator transformations above it are applied by every worker to its own share, and the workers' outputs are recombined in a fixed rotation that does not depend on timing and repeats identically when iterated again. Random maps may depend on the worker.",
  ["configurations", "programs"],
  "All stacks of transformations below the split x worker counts x lengths x both splitting modes, workers run in-process.",
  "Tests spawn a few workers for a few pipelines.",
  [T + "prefetch.py", T + "process_prefetch.py", T + "source.py", T + "interleave.py"],
  [("slicing of the source", T + "prefetch.py:_set_slice_map_dataset"), ("recombination", T + "process_prefetch.py:multiprocess_prefetch")],
  ["mp_prefetch", "multithread_prefetch"])
p("I17", "Datasets are immutable: building or iterating one never affects another",
  "Deriving new pipelines from a dataset, iterating it, or iterating several of its iterators in any alternation never changes what that dataset, an earlier derived pipeline, or another iterator produces.",
  ["histories", "programs"],
  "All alternations of two iterators of each catalogue pipeline up to a length, and all orders of deriving (including multi-process splitting) and iterating.",
  "Tests consume one pipeline per dataset object.",
  [D + "dataset.py", T + "batch.py", T + "process_prefetch.py", T + "prefetch.py", T + "cache.py"],
  [("transformations copy, never mutate their parents", "datasets")],
  ["IterDataset", "MapDataset"])
p("I18", "File sources return exactly the stored records, sequentially and after restores",
  "Reading files of any number of records and row groups returns every stored record once, in order, byte for byte; restored states continue at the exact record; a truncated file raises an error instead of yielding a wrong or partial record.",
  ["inputs", "crash_points", "histories"],
  "All small record/row-group layouts x all histories of next/save/restore, and every truncation point of a record file.",
  "Tests read one well-formed file.",
  [D + "sources/tfrecord_dataset.py", D + "sources/parquet_dataset.py", "grain/_src/python/data_sources.py"],
  [("record framing", D + "sources/tfrecord_dataset.py"), ("row group cursor", D + "sources/parquet_dataset.py")],
  ["TFRecordIterDataset", "ParquetIterDataset", "ArrayRecordDataSource"])
p("I19", "Tracking, tracing and debug options never change what a pipeline produces",
  "Turning execution tracking, debug mode or other observability options on or off changes neither the elements, the end, the errors nor the states of any pipeline; the execution summary can be taken at any time and is a tree over the stages of the pipeline. Dataset options hold for every transformation before and after the place where they are set, including those of interleaved datasets and in workers, and of several settings of an option the explicitly set value closest to the consumer wins.",
  ["configurations", "programs"],
  "All catalogue pipelines x all option combinations.",
  "Tests check reports, not transparency over all transformations.",
  [D + "stats.py", D + "base.py", D + "dataset.py"],
  [("stats hooks in every __next__/__getitem__", D + "stats.py"), ("option merging", D + "base.py:DatasetOptions.merge")],
  ["WithOptionsIterDataset", "DatasetOptions"])
p("I20", "Tree utilities preserve structure with and without the accelerator library",
  "Flattening, rebuilding, mapping and comparing nested structures gives the same results whichever of the two implementations is in use, and rebuilding a flattened structure restores it, for every nesting of the supported containers; structures that do not match are refused, never silently cut. Transformations built on them (batching, rebatching, packing, mixing, passing through shared memory) keep every feature under its own name, whatever order the features of the single elements are listed in.",
  ["inputs"],
  "All nestings of dict / ordered dict / list / tuple / named tuple up to a size bound.",
  "Tests list a few structures and run in one of the two environments.",
  ["grain/_src/core/tree_lib.py"],
  [("pure Python fallbacks", "grain/_src/core/tree_lib.py")],
  ["tree_lib functions"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
  for e in P:
    assert len(e["title"]) <= 80, (e["id"], len(e["title"]), e["title"])
    f.write(json.dumps(e) + "\n")
print(len(P), "properties")
