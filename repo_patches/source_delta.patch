From bd032fc97a0f044337189aa4f92d40136975acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 01/50] fix: do not replay stale FlatMap buffer after restoring
 an exhausted state

Restoring the state of an exhausted iterator in place kept the old buffer and
rewound the index into it, so its elements were produced again. A failing
parent left the index of the previous buffer paired with the new parent state.
---
 grain/_src/python/dataset/transformations/flatmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 75a8ea6..c36f5fc 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -104,11 +104,12 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       # Stores the previous state so that we can checkpoint this iterator
       # without storing `self._buffer` elements
       self._last_parent_state = self._parent.get_state()
+      self._next_index_in_buffer = 0
+      self._buffer = []
 
       element = next(self._parent)  # Raises `StopIteration` when done.
 
       with timer:
-        self._next_index_in_buffer = 0
         self._buffer = self._flat_map(element)
 
     with self._stats.record_self_time(offset_ns=timer.value()):
@@ -135,7 +136,7 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       # We keep this EOF state.
 
       self._next_index_in_buffer = 0
-      pass
+      self._buffer = []
 
   def __str__(self) -> str:
     return f"FlatMapDatasetIterator(transform={self._transform_name})"
-- 
2.43.0


From 7ccebb81446a498d5db6e2b27e820930067d7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 02/50] fix: skip fully consumed batch when restoring
 RebatchIterDataset

A state captured when the last parent batch was consumed exactly made the
restored iterator emit an extra batch of size 0.
---
 grain/_src/python/dataset/transformations/rebatch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index e6cfb25..2e3e67c 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -146,6 +146,10 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
               "Rebatching with starting batch size of 0 is not supported."
           )
 
+        if self._batch_idx >= len(self._current_batch[0]):
+          # The restored state had already consumed this batch completely.
+          continue
+
         if not to_concatenate:
           for _ in range(len(self._current_batch)):
             to_concatenate.append(list())
-- 
2.43.0


From a8d7fe2fb0d44f529517dd7d076bdaa3ab86c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 03/50] fix: restore ConcatThenSplit state from JSON
 checkpoints

JSON turns the slice tuples into lists which never equal the empty slice
sentinel: the restored iterator dropped the tokens of the next element.
---
 .../dataset/transformations/packing_concat_then_split.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index f54e2a6..5cc19fc 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -525,6 +525,10 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
 
   def set_state(self, state: dict[str, Any]):
     state = _CtsState(**state)
+    # JSON checkpoints turn the slices into lists.
+    state.remainder_slices = {
+        k: tuple(v) for k, v in state.remainder_slices.items()
+    }
     # Clear internal state.
     self._packed_elements = collections.deque()
     self._remainder_element = None
-- 
2.43.0


From c8c68c21fd4a8892ae20608a36099ff2819994f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 04/50] fix: report unusable parent state of a cache that is to
 be rebuilt

A state captured after restoring and before the next element paired the
position with the parent state of the filled cache.
---
 grain/_src/python/dataset/transformations/cache.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/cache.py b/grain/_src/python/dataset/transformations/cache.py
index 829dc51..32b1cb4 100644
--- a/grain/_src/python/dataset/transformations/cache.py
+++ b/grain/_src/python/dataset/transformations/cache.py
@@ -56,6 +56,7 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
     self._position = 0
     self._cache_filled = False
     self._rebuild_cache = False
+    self._parent_state_unusable = False
     self._starting_state = parent_iter.get_state()
 
   @stats.record_next_duration_if_output
@@ -93,10 +94,15 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
     return {
         "parent": self._parent.get_state(),
         "position": self._position,
-        "cache_filled": self._cache_filled,
+        # The parent state set from an iterator whose cache was filled is not
+        # usable until the cache has been rebuilt.
+        "cache_filled": self._cache_filled or (
+            self._rebuild_cache and self._parent_state_unusable
+        ),
     }
 
   def set_state(self, state: dict[str, Any]):
+    self._parent_state_unusable = state["cache_filled"]
     if state["cache_filled"] and not self._cache_filled:
       # If the state is from an iterator whose cache was filled, the parent
       # state will not be usable. We will rebuild the cache from scratch.
-- 
2.43.0


From 96ca033420ed3368eca85a8b92b4074b295ea29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 05/50] fix: stop endless repetition of an empty IterDataset

---
 grain/_src/python/dataset/transformations/repeat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/repeat.py b/grain/_src/python/dataset/transformations/repeat.py
index e1d2cc5..89469e5 100644
--- a/grain/_src/python/dataset/transformations/repeat.py
+++ b/grain/_src/python/dataset/transformations/repeat.py
@@ -114,6 +114,7 @@ class _RepeatDatasetIterator(dataset.DatasetIterator[T]):
     timer = stats.Timer()
     if self._epoch == self._num_epochs:
       raise StopIteration
+    restarted = False
     while True:
       try:
         elem = next(self._parent)
@@ -124,8 +125,12 @@ class _RepeatDatasetIterator(dataset.DatasetIterator[T]):
           self._epoch += 1
           if self._num_epochs is not None and self._epoch == self._num_epochs:
             raise StopIteration from exc
+          elif self._num_epochs is None and restarted:
+            # The parent has no elements, repeating it would never produce any.
+            raise StopIteration from exc
           else:
             self._parent.set_state(self._parent_starting_state)
+            restarted = True
 
   def get_state(self):
     return {"parent": self._parent.get_state(), "epoch": self._epoch}
-- 
2.43.0


From e3bf32363b17bb208ec38c60b9460b28e652fefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 06/50] fix: index_shuffle with an even power of two as maximum
 index

---
 .../_src/python/experimental/index_shuffle/index_shuffle.cc  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
index b031fe7..921b1f2 100644
--- a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
+++ b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
@@ -115,7 +115,10 @@ uint64_t index_shuffle(const uint64_t index, const uint64_t max_index,
   // Block size must be large enough to represent max_index and even (since
   // word size is half of it). We force at least 16 bits as minimum block size
   // since we observed pattern in the permutations below.
-  int block_size = static_cast<int>(std::ceil(std::log2(max_index)));
+  int block_size = 0;
+  while (block_size < 64 && (max_index >> block_size) != 0) {
+    ++block_size;
+  }
   block_size = std::max(block_size + block_size % 2, kMinBlockSize);
   assert(block_size > 0 && block_size % 2 == 0 && block_size <= 64);
   // rounds should be in [4, 1024] and number of rounds must be even.
-- 
2.43.0


From 3fd1813a0b780d9de627f1e07fc3e5dddc147e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 07/50] fix: keep window shuffle seeds within 32 bits

---
 grain/_src/python/dataset/transformations/shuffle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 23e56c4..704293e 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -111,7 +111,8 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
 
   def _shuffled_index(self, index: int) -> int:
     window_index, index_in_window = divmod(index, self._window_size)
-    seed = self._seed + window_index
+    # index_shuffle expects a 32-bit seed.
+    seed = (self._seed + window_index) % 2**32
     shuffled_index_in_window = index_shuffle.index_shuffle(
         index_in_window,
         max_index=self._window_size - 1,
@@ -210,7 +211,9 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
       # End of the parent iterator, nothing else to process.
       self._parent_exhausted = True
     self._window = _reshuffle_window(
-        window=self._window, seed=self._global_seed + self._window_index
+        window=self._window,
+        # index_shuffle expects a 32-bit seed.
+        seed=(self._global_seed + self._window_index) % 2**32,
     )
 
   @stats.record_next_duration_if_output
-- 
2.43.0


From 7eaa24e03b11643c9f23933a671c3289aa480f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 08/50] fix: end the last shuffle window of an epoch with the
 epoch

---
 .../python/dataset/transformations/shuffle.py    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 704293e..a7cee7e 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -110,16 +110,24 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
     return "WindowShuffleMapDataset"
 
   def _shuffled_index(self, index: int) -> int:
-    window_index, index_in_window = divmod(index, self._window_size)
+    length = len(self._parent)
+    epoch, index_in_epoch = divmod(index, length)
+    # The last window of an epoch ends with the epoch.
+    window_start = index_in_epoch // self._window_size * self._window_size
+    window_size = min(self._window_size, length - window_start)
+    windows_per_epoch = -(-length // self._window_size)
+    window_index = (
+        epoch * windows_per_epoch + window_start // self._window_size
+    )
     # index_shuffle expects a 32-bit seed.
     seed = (self._seed + window_index) % 2**32
     shuffled_index_in_window = index_shuffle.index_shuffle(
-        index_in_window,
-        max_index=self._window_size - 1,
+        index_in_epoch - window_start,
+        max_index=window_size - 1,
         seed=seed,
         rounds=4,
     )
-    return shuffled_index_in_window + window_index * self._window_size
+    return shuffled_index_in_window + window_start + epoch * length
 
   def __getitem__(self, index):
     if isinstance(index, slice):
-- 
2.43.0


From 6a529c79fd286a34774d4a1165bd6440f109cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 09/50] fix: do not prefetch in a background thread when the
 buffer size is 0

---
 grain/_src/python/dataset/transformations/prefetch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 76449dd..cc51954 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -604,7 +604,9 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     """
     if self._closed:
       raise ValueError("Attempting to use a closed iterator.")
-    if self._prefetch_thread is not None:
+    # With an empty buffer prefetching is disabled and elements are read from
+    # the parent directly.
+    if self._prefetch_thread is not None or not self._target_prefetch_buffer_size:
       return
 
     self._prefetch_should_stop.clear()
-- 
2.43.0


From 103b75c9ce0900ef2337cf0a3c5d3dd72ad74685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 10/50] fix: keep interleave checkpoints independent of the
 live iterator

---
 .../python/dataset/transformations/interleave.py    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index d1830f6..d2aa768 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -17,7 +17,7 @@ import collections
 from collections.abc import Sequence
 import copy
 import functools
-from typing import Any, TypeVar, cast
+from typing import Any, TypeVar
 import weakref
 
 from absl import logging
@@ -204,7 +204,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         "iterators_in_use_indices": self._iterators_in_use_indices.copy(),
         "iterators_in_use_states": iterators_in_use_states,
         "exhausted": exhausted,
-        "future_states": self._future_states,
+        "future_states": self._future_states.copy(),
     }
     return state
 
@@ -256,6 +256,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     for index_in_cycle, (index_in_datasets, it_state) in enumerate(
         zip(state["iterators_in_use_indices"], state["iterators_in_use_states"])
     ):
+      self._exhausted_iterator_state[index_in_cycle] = None
       if it_state is None:
         self._iterators_in_use[index_in_cycle] = None
       elif exhausted[index_in_cycle] == 0:
@@ -294,8 +295,12 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     )
     self._next_index_in_cycle = state["next_index_in_cycle"]
     self._next_index_in_datasets = state["next_index_in_datasets"]
-    self._iterators_in_use_indices = state["iterators_in_use_indices"]
-    self._future_states = cast(dict[int, Any], state.get("future_states", {}))
+    # Copied, because these are updated in place during iteration. JSON turns the
+    # integer keys of the future states into strings.
+    self._iterators_in_use_indices = list(state["iterators_in_use_indices"])
+    self._future_states = {
+        int(k): v for k, v in state.get("future_states", {}).items()
+    }
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
     active_states = []
-- 
2.43.0


From fb5f5efdcd98dc3a7711d137b42e3bfd2f65f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 11/50] fix: end the interleaving of an empty sequence of
 datasets

---
 grain/_src/python/dataset/transformations/interleave.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index d2aa768..9389381 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -98,6 +98,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
   def __next__(self) -> T:
     self._assert_not_closed()
     self._started = True
+    if not self._cycle_length:
+      # There are no datasets to interleave.
+      raise StopIteration
     timer = stats.Timer()
     _ = self._stats  # eagerly initialize stats
     while True:
-- 
2.43.0


From b1293072db6c96867e2719205bf7e8ef989456cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 12/50] fix: keep best-fit bins at their sequence limit when
 they hold no tokens

---
 .../dataset/transformations/packing_packed_batch.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_packed_batch.py b/grain/_src/python/dataset/transformations/packing_packed_batch.py
index 56f8ae1..74359bf 100644
--- a/grain/_src/python/dataset/transformations/packing_packed_batch.py
+++ b/grain/_src/python/dataset/transformations/packing_packed_batch.py
@@ -419,13 +419,15 @@ class BestFitPackedBatch(PackedBatch[_T]):
     new_free_cells = free_cells_matrix + element_lengths[:, np.newaxis]
 
     if self._max_sequences_per_bin is not None:
-      # Invalidate bins that have reached the max sequence limit. Adding the
-      # capacity ensures they fail the subsequent length check.
+      # Invalidate bins that have reached the max sequence limit. Adding more
+      # than the capacity ensures they fail the subsequent length check even if
+      # they hold no tokens.
       max_sequence_mask = np.where(
           self._num_examples_per_row < self._max_sequences_per_bin, 0, 1
       )
       new_free_cells = (
-          new_free_cells + max_sequence_mask * self._capacities[:, np.newaxis]
+          new_free_cells
+          + max_sequence_mask * (self._capacities[:, np.newaxis] + 1)
       )
     fittable_mask = np.all(
         new_free_cells <= self._capacities[:, np.newaxis], axis=0
-- 
2.43.0


From d5c80f8a6a7f6c8135ae116b99c33180fc4c73e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 13/50] fix: read the state before starting a background
 prefetch after setting the index

---
 grain/_src/python/dataset/transformations/prefetch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index cc51954..99fe1c9 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -609,6 +609,10 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     if self._prefetch_thread is not None or not self._target_prefetch_buffer_size:
       return
 
+    # The state is not known after `_set_next_index`. It has to be read before the
+    # background thread starts advancing the parent.
+    self.get_state()
+
     self._prefetch_should_stop.clear()
 
     self._prefetch_thread = threading.Thread(
-- 
2.43.0


From bb3131a7e6f324ae6bc189ee108adc5e9158770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 14/50] fix: do not exceed the queue capacity when growing
 during a pending shrink

---
 grain/_src/python/ipc/variable_size_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/variable_size_queue.py b/grain/_src/python/ipc/variable_size_queue.py
index 1bfa7ae..ce5ee44 100644
--- a/grain/_src/python/ipc/variable_size_queue.py
+++ b/grain/_src/python/ipc/variable_size_queue.py
@@ -67,7 +67,10 @@ class VariableSizeMultiprocessingQueue(queues.Queue):
     with self._resize_lock:
       delta = max_size - self._max_size_val.value
       if delta > 0:
-        for _ in range(delta):
+        # Capacity that was still to be taken away is simply kept.
+        kept = min(delta, self._pending_shrink.value)
+        self._pending_shrink.value -= kept
+        for _ in range(delta - kept):
           self._sem.release()
         self._max_size_val.value = max_size
       elif delta < 0:
-- 
2.43.0


From a9d6de43a5ac36d2bc7f52e5814b63b2826a9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 15/50] fix: do not block when the state of a process prefetch
 iterator is set repeatedly

---
 .../dataset/transformations/process_prefetch.py       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 1bf3c8a..e3dc8b9 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -293,7 +293,6 @@ def _put_dataset_elements_in_buffer(
         shared_memory_array.unlink_shm(element)
   except Exception as e:  # pylint: disable=broad-except
     _clear_queue_and_maybe_unlink_shm(buffer)
-    _clear_queue_and_maybe_unlink_shm(set_state_queue)
     grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
         (
             None,
@@ -307,7 +306,6 @@ def _put_dataset_elements_in_buffer(
     )
     return
   _clear_queue_and_maybe_unlink_shm(buffer)
-  _clear_queue_and_maybe_unlink_shm(set_state_queue)
 
 
 class _SetStateIsDone:
@@ -550,9 +548,12 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   def _clear_set_state_queue(self):
     with self._set_state_request_count.get_lock():
-      num_removed = _clear_queue_and_maybe_unlink_shm(self._set_state_queue)
-      self._set_state_count -= num_removed
-      self._set_state_request_count.value -= num_removed
+      # The worker process cannot take requests while the lock is held. Requests
+      # may still be on their way through the queue, so we need to wait for them.
+      while self._set_state_request_count.value > 0:
+        self._set_state_queue.get()
+        self._set_state_count -= 1
+        self._set_state_request_count.value -= 1
 
   def _stop_prefetch(self):
     """Stops the prefetching process if it's currently running."""
-- 
2.43.0


From 649f6a695fb760bbd906c7013c7e0a58c7deaffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 16/50] fix: report a failed worker process also when its state
 was being set

---
 .../dataset/transformations/process_prefetch.py       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index e3dc8b9..f0afcb8 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -295,7 +295,7 @@ def _put_dataset_elements_in_buffer(
     _clear_queue_and_maybe_unlink_shm(buffer)
     grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
         (
-            None,
+            _WorkerFailed(),
             None,
             None,
             e,
@@ -312,6 +312,10 @@ class _SetStateIsDone:
   """Placeholder to indicate set_state has completed in worker process."""
 
 
+class _WorkerFailed:
+  """Placeholder to indicate that the worker process has stopped on an error."""
+
+
 def _close_if_alive(
     iterator_ref: weakref.ReferenceType[dataset.DatasetIterator],
 ):
@@ -506,7 +510,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
         except queue.Empty:
           assert self._prefetch_process is not None
           if self._process_failed():
-            element, state, next_index = None, None, None
+            element, state, next_index = _WorkerFailed(), None, None
             err = RuntimeError(
                 "Worker process was terminated unexpectedly with exit code "
                 f"{self._prefetch_process.exitcode}. Search the logs above for "
@@ -516,7 +520,8 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
             continue
         if isinstance(element, _SetStateIsDone):
           self._set_state_count -= 1
-        elif self._set_state_count == 0:
+        elif self._set_state_count == 0 or isinstance(element, _WorkerFailed):
+          # A failed worker does not process the remaining set_state calls.
           break
         elif element is not None:
           # Unlink shared memory for the discarded element.
-- 
2.43.0


From add0d9e952f3ca2a7db92c7aa1c5a4463445aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 17/50] fix: report a process prefetch worker that exited with
 code 0

---
 .../dataset/transformations/process_prefetch.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index f0afcb8..4716491 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -487,11 +487,13 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       except Exception as e:  # pylint: disable=broad-except
         logging.warning("Failed to register subprocess: %s", str(e))
 
-  def _process_failed(self) -> bool:
-    if self._prefetch_process is None:
-      return False
-    exit_code = self._prefetch_process.exitcode
-    return exit_code is not None and exit_code != 0
+  def _process_exited(self) -> bool:
+    # The worker process only ends on its own when it can't continue, so any
+    # exit code means a failure.
+    return (
+        self._prefetch_process is not None
+        and self._prefetch_process.exitcode is not None
+    )
 
   @dataset_stats.record_next_duration_if_output
   def __next__(self):
@@ -503,13 +505,16 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       self.start_prefetch()
       # Loop until we get a non-stale element.
       while True:
+        # Must be checked before looking into the buffer: the worker process may
+        # put its last element and exit at any point.
+        process_exited = self._process_exited()
         try:
           element, state, next_index, err, err_traceback = self._buffer.get(
               timeout=_QUEUE_WAIT_TIMEOUT_S
           )
         except queue.Empty:
           assert self._prefetch_process is not None
-          if self._process_failed():
+          if process_exited:
             element, state, next_index = _WorkerFailed(), None, None
             err = RuntimeError(
                 "Worker process was terminated unexpectedly with exit code "
-- 
2.43.0


From 46b6a26d91f2736e2fda169d8a6978a75a2cc38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 18/50] fix: raise when advancing a closed iterator instead of
 yielding buffered elements

---
 grain/_src/python/dataset/transformations/cache.py              | 1 +
 grain/_src/python/dataset/transformations/flatmap.py            | 1 +
 grain/_src/python/dataset/transformations/limit.py              | 1 +
 grain/_src/python/dataset/transformations/mix.py                | 1 +
 grain/_src/python/dataset/transformations/packing.py            | 1 +
 .../python/dataset/transformations/packing_concat_then_split.py | 1 +
 grain/_src/python/dataset/transformations/prefetch.py           | 2 +-
 grain/_src/python/dataset/transformations/process_prefetch.py   | 1 +
 grain/_src/python/dataset/transformations/rebatch.py            | 1 +
 grain/_src/python/dataset/transformations/repeat.py             | 1 +
 grain/_src/python/dataset/transformations/shuffle.py            | 1 +
 11 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/cache.py b/grain/_src/python/dataset/transformations/cache.py
index 32b1cb4..9a9b6b5 100644
--- a/grain/_src/python/dataset/transformations/cache.py
+++ b/grain/_src/python/dataset/transformations/cache.py
@@ -61,6 +61,7 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
 
   @stats.record_next_duration_if_output
   def __next__(self) -> T:
+    self._assert_not_closed()
     timer = stats.Timer()
     if self._cache_filled:
       with self._stats.record_self_time():
diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index c36f5fc..2be6448 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -99,6 +99,7 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self):
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     while self._has_consumed_all_buffer_elements():
       # Stores the previous state so that we can checkpoint this iterator
diff --git a/grain/_src/python/dataset/transformations/limit.py b/grain/_src/python/dataset/transformations/limit.py
index a496318..1fd1c04 100644
--- a/grain/_src/python/dataset/transformations/limit.py
+++ b/grain/_src/python/dataset/transformations/limit.py
@@ -37,6 +37,7 @@ class _LimitDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._count_elements_read >= self._count:
       raise StopIteration
     value = next(self._parent)
diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index 74cdb50..d73e261 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -209,6 +209,7 @@ class _MixedDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._stop:
       # Although there may be elements available in some parent datasets, do not
       # sample once stop signal is turned on.
diff --git a/grain/_src/python/dataset/transformations/packing.py b/grain/_src/python/dataset/transformations/packing.py
index 21a69b2..915194f 100644
--- a/grain/_src/python/dataset/transformations/packing.py
+++ b/grain/_src/python/dataset/transformations/packing.py
@@ -178,6 +178,7 @@ class PackingDatasetIterator(dataset.DatasetIterator):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self):
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     if self._packed_batch is not None:
       # We have a packed batch, we emit one row at a time until exhausted.
diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 5cc19fc..6883960 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -402,6 +402,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._packed_elements:
       self._state.elements_from_buffer_after_checkpoint += 1
       return self._stats.record_output_spec(self._packed_elements.popleft())
diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 99fe1c9..a4cd9c2 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -633,7 +633,7 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       stage_category=dataset_stats.IPL_CAT_PREFETCH
   )
   def __next__(self):
-
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     with timer:
       if self._target_prefetch_buffer_size > 0:
diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 4716491..8ed6888 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -497,6 +497,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   @dataset_stats.record_next_duration_if_output
   def __next__(self):
+    self._assert_not_closed()
     if self._exhausted:
       raise StopIteration
     timer = dataset_stats.Timer()
diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index 2e3e67c..4abb439 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -111,6 +111,7 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     timer = stats.Timer()
 
     batch_dim_needed = self._batch_size
diff --git a/grain/_src/python/dataset/transformations/repeat.py b/grain/_src/python/dataset/transformations/repeat.py
index 89469e5..803c240 100644
--- a/grain/_src/python/dataset/transformations/repeat.py
+++ b/grain/_src/python/dataset/transformations/repeat.py
@@ -111,6 +111,7 @@ class _RepeatDatasetIterator(dataset.DatasetIterator[T]):
 
   @stats.record_next_duration_if_output
   def __next__(self):
+    self._assert_not_closed()
     timer = stats.Timer()
     if self._epoch == self._num_epochs:
       raise StopIteration
diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index a7cee7e..c5b8f81 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -227,6 +227,7 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     # Window is empty, fill up the next window.
     if not self._window:
       if self._parent_exhausted:
-- 
2.43.0


From 4856f04457166b6965c3f18157380a26c73893ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 19/50] fix: close the exhausted iterators that interleave
 keeps for the next epoch

---
 grain/_src/python/dataset/transformations/interleave.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 9389381..a343a5f 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -392,6 +392,11 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     for iterator in self._iterators_in_use:
       if iterator is not None:
         iterator.close()
+    # Iterators that are kept after they were exhausted may still own worker
+    # processes.
+    for exhausted in self._exhausted_iterators:
+      if exhausted is not None:
+        exhausted[1].close()
 
   def start_prefetch(self):
     for it in self._iterators_in_use:
-- 
2.43.0


From 8ed869d8523fecb96182d683d35ac881cd7027db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 20/50] fix: close the base iterator when an ElasticIterator is
 closed

---
 grain/_src/python/dataset/elastic_iterator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index 5304259..cfc66bd 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -194,6 +194,7 @@ class ElasticIterDatasetIterator(dataset.DatasetIterator):
 
   def __next__(self) -> Any:
     """Returns the next element from the iterator."""
+    self._assert_not_closed()
     return next(self._iterator)
 
   def get_shard_states(self) -> dict[int, Any]:
@@ -335,6 +336,7 @@ class _ElasticMapDatasetIterator(dataset.DatasetIterator):
     return ds.__iter__()
 
   def __next__(self) -> Any:
+    self._assert_not_closed()
     result = next(self._iterator)
     self._global_next_index += self._global_batch_size
     return result
@@ -351,6 +353,7 @@ class _ElasticMapDatasetIterator(dataset.DatasetIterator):
     self.__dict__.pop("_iterator", None)
 
   def close(self) -> None:
+    self._closed = True
     if "_iterator" in self.__dict__:
       self._iterator.close()
 
@@ -473,11 +476,13 @@ class ElasticIterator(dataset.DatasetIterator):
     Returns:
       The next element in the iteration.
     """
+    self._assert_not_closed()
     return next(self.base_iterator)
 
   def close(self) -> None:
     """Closes the base iterator if it was created for backwards compatibility."""
-    if "_base_iterator" in self.__dict__:
+    self._closed = True
+    if "base_iterator" in self.__dict__:
       self.base_iterator.close()
 
   def get_state(self) -> dict[str, Any]:
-- 
2.43.0


From 6f82806e7e30010ec23448c485b5a368c97238ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 21/50] fix: release the file of a closed file source and raise
 when it is advanced

---
 grain/_src/python/dataset/sources/parquet_dataset.py  |  7 +++++++
 grain/_src/python/dataset/sources/tfrecord_dataset.py | 10 ++++++++++
 2 files changed, 17 insertions(+)

diff --git a/grain/_src/python/dataset/sources/parquet_dataset.py b/grain/_src/python/dataset/sources/parquet_dataset.py
index 6b31d60..970993e 100644
--- a/grain/_src/python/dataset/sources/parquet_dataset.py
+++ b/grain/_src/python/dataset/sources/parquet_dataset.py
@@ -58,6 +58,7 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
       self._np_table[table.field(i).name] = table.column(i).to_numpy()
 
   def __next__(self):
+    self._assert_not_closed()
     if self._index_within_row_group >= self._row_group_len:
       if self._row_group < self._pq_file.num_row_groups - 1:
         self._row_group += 1
@@ -84,6 +85,12 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
     self._index_within_row_group = state["index_within_row_group"]
     self._read_row_group_to_np_table()
 
+  def close(self) -> None:
+    super().close()
+    # Not set if the file could not be opened.
+    if hasattr(self, "_pq_file"):
+      self._pq_file.close()
+
 
 class ParquetIterDataset(dataset.IterDataset[T]):
   """An IterDataset for a Parquet format file.
diff --git a/grain/_src/python/dataset/sources/tfrecord_dataset.py b/grain/_src/python/dataset/sources/tfrecord_dataset.py
index 5f7561e..811e341 100644
--- a/grain/_src/python/dataset/sources/tfrecord_dataset.py
+++ b/grain/_src/python/dataset/sources/tfrecord_dataset.py
@@ -73,6 +73,9 @@ class _TFRecordReader:
   def tell(self) -> int:
     return self._reader.tell()
 
+  def close(self):
+    self._reader.close()
+
   def __del__(self):
     if hasattr(self, "_reader") and self._reader:
       self._reader.close()
@@ -86,6 +89,7 @@ class _TFRecordDatasetIterator(dataset.DatasetIterator[T]):
     self._reader = _TFRecordReader(path)
 
   def __next__(self) -> T:
+    self._assert_not_closed()
     return next(self._reader)
 
   def get_state(self) -> dict[str, int]:
@@ -96,6 +100,12 @@ class _TFRecordDatasetIterator(dataset.DatasetIterator[T]):
   def set_state(self, state: dict[str, int]):
     self._reader.seek(state["reader_offset"])
 
+  def close(self) -> None:
+    super().close()
+    # Not set if the file could not be opened.
+    if hasattr(self, "_reader"):
+      self._reader.close()
+
 
 class TFRecordIterDataset(dataset.IterDataset[T]):
   """An IterDataset for a TFRecord format file."""
-- 
2.43.0


From 7810bafd09768e9bae4e95c98454ece5710c3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 22/50] fix: close the iterators that interleave no longer uses

---
 .../_src/python/dataset/transformations/interleave.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index a343a5f..68fd96c 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -133,10 +133,15 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
                 iterator_to_use.get_state()
             )
             if self._keep_iterators_after_stop_iteration:
+              previous = self._exhausted_iterators[self._next_index_in_cycle]
               self._exhausted_iterators[self._next_index_in_cycle] = (
                   self._iterators_in_use_indices[self._next_index_in_cycle],
                   iterator_to_use,
               )
+              if previous is not None:
+                previous[1].close()
+            else:
+              iterator_to_use.close()
             self._iterators_in_use[self._next_index_in_cycle] = None
             self._next_index_in_cycle = (
                 self._next_index_in_cycle + 1
@@ -260,6 +265,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         zip(state["iterators_in_use_indices"], state["iterators_in_use_states"])
     ):
       self._exhausted_iterator_state[index_in_cycle] = None
+      previous = self._iterators_in_use[index_in_cycle]
       if it_state is None:
         self._iterators_in_use[index_in_cycle] = None
       elif exhausted[index_in_cycle] == 0:
@@ -292,6 +298,11 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       else:
         self._exhausted_iterator_state[index_in_cycle] = it_state
         self._iterators_in_use[index_in_cycle] = None
+      if (
+          previous is not None
+          and previous is not self._iterators_in_use[index_in_cycle]
+      ):
+        previous.close()
 
     self._prefetch_ds_iter.set_state(
         {"next_index": state["next_index_in_datasets"]}
-- 
2.43.0


From 47af9561795c87fd7f2d910d98419c1cede2b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 23/50] fix: let setting the state reopen a closed
 ElasticIterator

---
 grain/_src/python/dataset/elastic_iterator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index cfc66bd..2f36ffb 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -498,6 +498,8 @@ class ElasticIterator(dataset.DatasetIterator):
     if "base_iterator" in self.__dict__:
       self.base_iterator.close()
       self.__dict__.pop("base_iterator")
+    # Setting the state starts over with a new base iterator.
+    self._closed = False
     self.base_iterator.set_state(state)
 
   def get_shard_states(self) -> Any:
@@ -527,4 +529,5 @@ class ElasticIterator(dataset.DatasetIterator):
           "set_shard_states is only supported for IterDataset-based"
           " ElasticIterator."
       )
+    self._closed = False
     self.base_iterator.set_shard_states(shard_states)
-- 
2.43.0


From ed186346c9160cad7b1a14f6d4ded77c8404d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 24/50] fix: delete shared memory arrays without waiting for
 locks in finalizers

---
 grain/_src/python/ipc/shared_memory_array.py | 35 ++++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 8dab940..55a3325 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -15,6 +15,7 @@
 
 from __future__ import annotations
 
+import collections
 import dataclasses
 import functools
 import math
@@ -62,7 +63,10 @@ class SharedMemoryArray(np.ndarray):
 
   _lock: threading.Lock = threading.Lock()
   _del_thread_pool: pool.ThreadPool | None = None
-  _outstanding_del_requests: threading.Semaphore | None = None
+  # One item per request to close/unlink shared memory that can still be made.
+  # `__del__` can run at any point, including while another array is being
+  # deleted by the same thread, and must not wait for a lock.
+  _available_del_requests: collections.deque[None] | None = None
 
   def __new__(
       cls,
@@ -139,16 +143,16 @@ class SharedMemoryArray(np.ndarray):
     with SharedMemoryArray._lock:
       if not SharedMemoryArray._del_thread_pool:
         max_outstanding_requests = max(max_outstanding_requests, num_threads)
-        SharedMemoryArray._del_thread_pool = pool.ThreadPool(num_threads)
-        SharedMemoryArray._outstanding_del_requests = threading.Semaphore(
-            max_outstanding_requests
+        SharedMemoryArray._available_del_requests = collections.deque(
+            [None] * max_outstanding_requests
         )
+        SharedMemoryArray._del_thread_pool = pool.ThreadPool(num_threads)
 
   # For use in tests.
   @classmethod
   def _disable_async_del(cls) -> None:
     cls._del_thread_pool = None
-    cls._outstanding_del_requests = None
+    cls._available_del_requests = None
 
   # Mocked in tests, so be careful refactoring.
   @classmethod
@@ -158,8 +162,8 @@ class SharedMemoryArray(np.ndarray):
       unlink: bool,
   ) -> None:
     _del_shm(shm, unlink)
-    assert cls._outstanding_del_requests is not None
-    cls._outstanding_del_requests.release()
+    assert cls._available_del_requests is not None
+    cls._available_del_requests.append(None)
 
   def unlink_on_del(self) -> None:
     """Mark this object responsible for unlinking the shared memory."""
@@ -170,19 +174,22 @@ class SharedMemoryArray(np.ndarray):
     if not isinstance(self.base, mmap.mmap):
       return
     thread_pool = SharedMemoryArray._del_thread_pool
-    outstanding_del_requests = SharedMemoryArray._outstanding_del_requests
+    available_del_requests = SharedMemoryArray._available_del_requests
     shm = self.shm
     assert isinstance(shm, shared_memory.SharedMemory)
     if thread_pool:
-      assert outstanding_del_requests is not None
-      # We use a semaphore to make sure that we don't accumulate too many
-      # requests to close/unlink shared memory, which could lead to OOM errors.
-      if outstanding_del_requests.acquire(blocking=False):
+      assert available_del_requests is not None
+      # We limit the number of outstanding requests to make sure that we don't
+      # accumulate too many requests to close/unlink shared memory, which could
+      # lead to OOM errors.
+      try:
+        available_del_requests.pop()
+      except IndexError:
+        _del_shm(shm, unlink=self._unlink_on_del)
+      else:
         thread_pool.apply_async(
             SharedMemoryArray.close_shm_async, args=(shm, self._unlink_on_del)
         )
-      else:
-        _del_shm(shm, unlink=self._unlink_on_del)
     else:
       _del_shm(shm, unlink=self._unlink_on_del)
 
-- 
2.43.0


From fa514641ec70bbceaa85d028c1775753e1bdad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 25/50] fix: free the shared memory of a batch that failed

---
 .../python/dataset/transformations/batch.py   | 59 +++++++++++++------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 93169fc..70ed9fe 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -58,6 +58,26 @@ _PARALLEL_BATCHING_MIN_TOTAL_BYTES = 4 * 1024 * 1024
 _PARALLEL_BATCHING_MIN_BATCH_SIZE = 4
 
 
+class _ShmAllocator:
+  """Allocates the shared memory arrays of one batch."""
+
+  def __init__(self):
+    self._arrays = []
+
+  def __call__(
+      self, shape: Any, dtype: Any
+  ) -> shared_memory_array.SharedMemoryArray:
+    array = shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
+    self._arrays.append(array)
+    return array
+
+  def unlink(self) -> None:
+    """Frees the shared memory if batching failed and nobody will get it."""
+    for array in self._arrays:
+      array.unlink_on_del()
+    self._arrays.clear()
+
+
 class _MakeBatchParallel:
   """A callable class for batching sequences of structured data in parallel.
 
@@ -87,7 +107,7 @@ class _MakeBatchParallel:
   def enable_shared_memory_output(self):
     self._output_to_shared_memory = True
 
-  def _stack(self, xs: Sequence[Any]) -> Any:
+  def _stack(self, xs: Sequence[Any], new_shm_array: _ShmAllocator) -> Any:
     """Stacks elements, optionally into shared memory."""
     if not self._output_to_shared_memory:
       return np.stack(xs)
@@ -101,23 +121,21 @@ class _MakeBatchParallel:
     # Fall back to safe np.stack (which infers max-width dtype) + copy.
     if dtype.kind in ("U", "S"):
       stacked = np.stack(xs)
-      shm_arr = shared_memory_array.SharedMemoryArray(
-          stacked.shape, dtype=stacked.dtype
-      )
+      shm_arr = new_shm_array(stacked.shape, dtype=stacked.dtype)
       np.copyto(shm_arr, stacked, casting="no")
       return shm_arr
 
-    return np.stack(
-        xs, out=shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
-    )
+    return np.stack(xs, out=new_shm_array(shape, dtype=dtype))
 
   def __call__(self, values: Sequence[T]) -> T:
+    new_shm_array = _ShmAllocator()
+
     def _batch_fn(*xs: Sequence[T]) -> T:
       # If the thread pool is not available or the elements are not NumPy
       # arrays, fall back to the standard serial `np.stack` operation.
       all_ndarray = all(isinstance(x, np.ndarray) for x in xs)
       if (self._parallel_batch_executor is None) or not all_ndarray:
-        return self._stack(xs)
+        return self._stack(xs, new_shm_array)
       xs = cast(Sequence[np.ndarray], xs)
       first_arg = xs[0]
       shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
@@ -125,16 +143,16 @@ class _MakeBatchParallel:
       # because the output array dtype is inferred from the first element only.
       # Fall back to the serial _stack path which handles strings correctly.
       if dtype.kind in ("U", "S"):
-        return self._stack(xs)
+        return self._stack(xs, new_shm_array)
       # Fall back to the standard serial `np.stack` operation if the size of
       # of the entire batch is smaller (measured in bytes) than the threshold.
       if sum(x.nbytes for x in xs) < _PARALLEL_BATCHING_MIN_TOTAL_BYTES:
-        return self._stack(xs)
+        return self._stack(xs, new_shm_array)
 
       if not self._output_to_shared_memory or dtype.hasobject:
         out = np.empty(shape, dtype=dtype)
       else:
-        out = shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
+        out = new_shm_array(shape, dtype=dtype)
 
       # For each input array, submit a parallel task to the thread pool to copy
       # the data into the corresponding slice of the output array.
@@ -153,7 +171,10 @@ class _MakeBatchParallel:
     try:
       result = tree_lib.map_structure(_batch_fn, *values)
       return result
-    except ValueError as e:
+    except Exception as e:
+      new_shm_array.unlink()
+      if not isinstance(e, ValueError):
+        raise
       # NumPy error message doesn't include actual shapes and dtypes. Provide a
       # more helpful error message.
       raise ValueError(
@@ -188,6 +209,7 @@ def make_batch(
         values[0],
     )
   stacking_function = lambda *xs: np.stack(xs)
+  new_shm_array = _ShmAllocator()
   if output_to_shared_memory:
 
     def shm_stacking_function(*args):
@@ -200,21 +222,20 @@ def make_batch(
       # Fall back to safe np.stack (which infers max-width dtype) + copy.
       if dtype.kind in ("U", "S"):
         stacked = np.stack(args)
-        shm_arr = shared_memory_array.SharedMemoryArray(
-            stacked.shape, dtype=stacked.dtype
-        )
+        shm_arr = new_shm_array(stacked.shape, dtype=stacked.dtype)
         np.copyto(shm_arr, stacked, casting="no")
         return shm_arr
-      return np.stack(
-          args, out=shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
-      )
+      return np.stack(args, out=new_shm_array(shape, dtype=dtype))
 
     stacking_function = shm_stacking_function
 
   try:
     return tree_lib.map_structure(stacking_function, *values)
 
-  except ValueError as e:
+  except Exception as e:
+    new_shm_array.unlink()
+    if not isinstance(e, ValueError):
+      raise
     # NumPy error message doesn't include actual shapes and dtypes. Provide a
     # more helpful error message.
     raise ValueError(
-- 
2.43.0


From 3cd9524aba33df0f8414e10b72f415f29624c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 26/50] fix: index positions at the end of a batched iterator

The index after a partial last batch could not be set, and dropping the
remainder an exhausted iterator reported one batch too many.
---
 .../python/dataset/transformations/batch.py   | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 70ed9fe..f3f2ce5 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -339,12 +339,25 @@ class _BatchDatasetIterator(dataset.DatasetIterator[T]):
     self._parent.set_state(state)
 
   def _get_next_index(self) -> int:
-    return (
-        dataset.get_next_index(self._parent) + self._batch_size - 1
-    ) // self._batch_size
+    parent_index = dataset.get_next_index(self._parent)
+    if not self._drop_remainder:
+      parent_index += self._batch_size - 1
+    return parent_index // self._batch_size
 
   def _set_next_index(self, index: int) -> None:
-    dataset.set_next_index(self._parent, index * self._batch_size)
+    parent_index = index * self._batch_size
+    try:
+      dataset.set_next_index(self._parent, parent_index)
+    except IndexError:
+      # The index after a partial last batch: the end of the parent.
+      if self._drop_remainder or index <= 0:
+        raise
+      dataset.set_next_index(self._parent, parent_index - self._batch_size)
+      is_partial_batch = False
+      for _ in self._parent:
+        is_partial_batch = True
+      if not is_partial_batch:
+        raise
 
   def __str__(self) -> str:
     return (
-- 
2.43.0


From 61f1a6157058e322d5251141d19fbf7cac5dc33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 27/50] fix: index positions of an exhausted single-dataset
 interleave

Reading the index gave 0 and setting it failed an assertion.
---
 .../dataset/transformations/interleave.py     | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 68fd96c..eb9f103 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -361,12 +361,20 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     }
     self.set_state(new_state)
 
+  def _only_iterator(self) -> dataset.DatasetIterator[T]:
+    """Returns the iterator of the only dataset, even if it is exhausted."""
+    # Ensure iterator is created by calling get_state.
+    state = self.get_state()
+    if self._iterators_in_use[0] is None:
+      state["exhausted"][0] = 0
+      self.set_state(state)
+    it = self._iterators_in_use[0]
+    assert it is not None
+    return it
+
   def _get_next_index(self) -> int:
     if len(self._datasets) == 1:
-      it = self._iterators_in_use[0]
-      if it is None:
-        return 0
-      return dataset.get_next_index(it)
+      return dataset.get_next_index(self._only_iterator())
     raise NotImplementedError(
         "get_next_index is not supported for InterleaveDatasetIterator with"
         " more than one dataset."
@@ -374,11 +382,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
 
   def _set_next_index(self, index: int) -> None:
     if len(self._datasets) == 1:
-      # Ensure iterator is created by calling get_state.
-      _ = self.get_state()
-      it = self._iterators_in_use[0]
-      assert it is not None
-      dataset.set_next_index(it, index)
+      dataset.set_next_index(self._only_iterator(), index)
     else:
       raise NotImplementedError(
           "set_next_index is not supported for InterleaveDatasetIterator with"
-- 
2.43.0


From 4bea1f030f8180c529af1704075d2f08321e97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 28/50] fix: concat-then-split lost and repeated tokens of
 features split before

A feature of a remainder that did not need splitting again was cut as if
the remainder started at its first token.
---
 .../transformations/packing_concat_then_split.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 6883960..1efd924 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -375,17 +375,17 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
           return element
         new_tokens_in_buffer[key] = sequence_length
       else:
+        if element.slices[key] == _EMPTY_SLICE:
+          start_index = 0
+        else:
+          start_index = element.slices[key][0]
         if sequence_length > available_tokens:
           needs_splitting = True
-          if element.slices[key] == _EMPTY_SLICE:
-            start_index = 0
-          else:
-            start_index = element.slices[key][0]
           split_points[key] = start_index + available_tokens
           new_tokens_in_buffer[key] = available_tokens
         else:
           # No splitting.
-          split_points[key] = sequence_length
+          split_points[key] = start_index + sequence_length
           new_tokens_in_buffer[key] = sequence_length
 
     if needs_splitting:
-- 
2.43.0


From d9278755935f4219aab702171a5785e124782498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 29/50] fix: concat-then-split wrote BOS for empty sequences

The token ended up in the padding, or past the end of a full row.
---
 .../python/dataset/transformations/packing_concat_then_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 1efd924..3a74631 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -313,7 +313,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
               " ConcatThenSplitPackDatasetIterator."
           )
         values[start:end] = sequence
-        if replace_with_bos:
+        if replace_with_bos and sequence_length > 0:
           values[start] = self._config.bos_token_id
         if not is_meta_feature:
           assert segment_ids is not None
-- 
2.43.0


From 5d6b53b1e11b16d750c0ab010c55c40ae5c33c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 30/50] fix: concat-then-split repeated scalar features of
 split elements

A scalar that did not fit a row any more was put there anyway.
---
 .../dataset/transformations/packing_concat_then_split.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 3a74631..bf0a07b 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -182,11 +182,11 @@ class _CtsElement:
 
   def get_sliced_features(self, key: str) -> Mapping[str, Any]:
     feature = self.features[key]
-    if np.ndim(feature) != 0 and key in self.slices:
+    if key in self.slices:
       sl = self.slices[key]
       if sl != _EMPTY_SLICE:
         start, stop = self.slices[key]
-        return feature[start:stop]
+        return np.atleast_1d(feature)[start:stop]
     return feature
 
 
-- 
2.43.0


From fbbcd425483d47fb9d2542964e3dacac4244e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 31/50] fix: position after a failed element of a threaded
 prefetch

---
 grain/_src/python/dataset/transformations/prefetch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index a4cd9c2..a37ede5 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -261,18 +261,22 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
           element = self._buffer.popleft()
           # Prefetch elements until the buffer is full again.
           self._fill_buffer()
+          # The element left the buffer, also if producing it failed.
+          self._next_returned_index += 1
           element = element.result()
         else:
           # In case prefetch buffer size was decreased, we still want to consume
           # the already prefetched elements.
           if self._buffer:
-            element = self._buffer.popleft().result()
+            element = self._buffer.popleft()
+            self._next_returned_index += 1
+            element = element.result()
           else:
             element = self._stats.record_bytes_consumed(
                 self._map_parent[self._next_returned_index]
             )
             self._next_buffered_index += 1
-        self._next_returned_index += 1
+            self._next_returned_index += 1
       return_element = self._allow_nones or element is not None
       self._threshold_checker.check(return_element)
       if return_element:
-- 
2.43.0


From 8ed2b8f1c0cedf12c227209b436a3a9fb07ee70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 32/50] fix: a failed element ended a mixed iterator

---
 grain/_src/python/dataset/transformations/mix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index d73e261..37d552e 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -223,7 +223,7 @@ class _MixedDatasetIterator(dataset.DatasetIterator[T]):
       elem = next(self._parents[input_index])
     except Exception as e:
       # Turn on stop signal as soon as the end of any dataset is reached.
-      self._stop = True
+      self._stop = isinstance(e, StopIteration)
       if sys.version_info >= (3, 11):
         e.add_note(
             f"Exception caught while processing dataset @ {input_index=}"
-- 
2.43.0


From 5d99765ae346c8c042a38057dc8b7cd0704ef341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 33/50] fix: restoring a flat map state read the next element

---
 grain/_src/python/dataset/transformations/flatmap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 2be6448..df78afe 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -128,6 +128,10 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
     self._last_parent_state = state["parent"]
     self._parent.set_state(state["parent"])
     self._next_index_in_buffer = state["next_index_in_buffer"]
+    self._buffer = []
+    if self._next_index_in_buffer == 0:
+      # Nothing was consumed from the buffer, `__next__` fills it.
+      return
     try:
       element = next(self._parent)
       # Recovers the buffer
-- 
2.43.0


From 5160e8fd240374ab47e3eac01808fe2158a09437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 34/50] fix: cache rebuilt partially after a failed element

---
 grain/_src/python/dataset/transformations/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/cache.py b/grain/_src/python/dataset/transformations/cache.py
index 9a9b6b5..816f5fb 100644
--- a/grain/_src/python/dataset/transformations/cache.py
+++ b/grain/_src/python/dataset/transformations/cache.py
@@ -75,11 +75,11 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
       with timer:
         self._parent.set_state(self._starting_state)
         self._cache = []
-        self._rebuild_cache = False
       for _ in range(self._position):
         val = next(self._parent)
         with timer:
           self._cache.append(val)
+      self._rebuild_cache = False
     try:
       val = next(self._parent)
       with self._stats.record_self_time(offset_ns=timer.value()):
-- 
2.43.0


From b5e306e3d0d7a3eed1c4d17d5030884402689ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 35/50] fix: window shuffle state after a failed element
 skipped its window

---
 grain/_src/python/dataset/transformations/shuffle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index c5b8f81..59f7da8 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -235,8 +235,8 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
       # Checkpoints require reshuffling the window regardless the progress
       # within it. Store the parent window start.
       self._parent_window_start_iter_state = self._parent.get_state()
-      self._fill_and_shuffle_window()
       self._pos_in_window = 0
+      self._fill_and_shuffle_window()
     # If the window is empty after reshuffling means no elements are left.
     if not self._window:
       raise StopIteration
@@ -263,6 +263,10 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
     self._window_index = state["window_index"]
     self._pos_in_window = state["pos_in_window"]
     self._parent_exhausted = False
+    self._window = []
+    if self._pos_in_window == 0:
+      # Nothing of the window was processed, `__next__` fills it.
+      return
     self._fill_and_shuffle_window()
     # Removed previously processed elements from the window.
     for _ in range(min(self._pos_in_window, len(self._window))):
-- 
2.43.0


From d8d7860be6eb417243a8f841471818c3b1d7caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 36/50] fix: elastic resizing repeated exhausted shards

---
 .../dataset/transformations/interleave.py     | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index eb9f103..9c883eb 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -89,7 +89,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     self._exhausted_iterators: list[
         tuple[int, dataset.DatasetIterator[T]] | None
     ] = [None] * self._cycle_length
-    # Future states used for elastic iterators
+    # Future states used for elastic iterators, None for datasets to be skipped.
     self._future_states: dict[int, Any] = {}
     self._cached_start_states: dict[int, Any] = {}
 
@@ -148,6 +148,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
             ) % self._cycle_length
             continue
       with timer:
+        self._skip_exhausted_datasets()
         if self._next_index_in_datasets < len(self._datasets):
           self._iterators_in_use[self._next_index_in_cycle] = next(
               self._prefetch_ds_iter
@@ -174,6 +175,16 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
               self._next_index_in_cycle + 1
           ) % self._cycle_length
 
+  def _skip_exhausted_datasets(self):
+    """Skips datasets that were exhausted already before elastic resizing."""
+    index = self._next_index_in_datasets
+    while index in self._future_states and self._future_states[index] is None:
+      del self._future_states[index]
+      index += 1
+    if index != self._next_index_in_datasets:
+      self._next_index_in_datasets = index
+      self._prefetch_ds_iter.set_state({"next_index": index})
+
   def get_state(self):
     iterators_in_use_states = [None] * self._cycle_length
     for i in range(self._cycle_length):
@@ -232,7 +243,12 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       # means the current shard has not yet started to be iterated on or have a
       # future state has been saved for it.
       if i >= next_index_in_datasets:
-        if i in self._future_states:
+        if self._future_states.get(i, 0) is None:
+          shard_states[i] = {
+              "exhausted": 1,
+              "state": self._get_iterator_start_state(i),
+          }
+        elif i in self._future_states:
           shard_states[i] = {
               "exhausted": 0,
               "state": self._future_states[i],
@@ -339,6 +355,11 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         max(iterators_in_use_indices) + 1 if iterators_in_use_indices else 0
     )
 
+    # Exhausted shards that iteration would get to again are skipped.
+    for indx, shard_state in enumerate(shard_states):
+      if shard_state["exhausted"] and indx >= next_index_in_datasets:
+        future_states[indx] = None
+
     # This is the case where the cycle length is greater than the number of
     # non-exhausted shards. We will just go back through the datasets to fill
     # the cycle length.
-- 
2.43.0


From c1988481e084cf2e80e658d40315411e50956816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:49 +0000
Subject: [PATCH 37/50] fix: restoring an incomplete elastic checkpoint dropped
 shards

Restoring on a different number of hosts silently treated the first missing
shard file as the end of the shards. It now raises, and leaves the iterator
where it was.
---
 grain/_src/python/dataset/elastic_iterator.py   | 17 +++++++++--------
 .../dataset/transformations/interleave.py       |  5 +++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index 2f36ffb..38de91c 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -243,14 +243,10 @@ class ElasticIterDatasetIterator(dataset.DatasetIterator):
           self._global_batch_size, self._shard_options.shard_count
       )
       ds = ds.batch(host_batch_size, drop_remainder=False)
-    if "_iterator" in self.__dict__:
-      self._iterator.close()
-    self._iterator = ds.__iter__()
-    self._sliceable_iterator = _find_sliceable_iterator(self._iterator)
-    self._closed = False
-
+    iterator = ds.__iter__()
+    sliceable_iterator = _find_sliceable_iterator(iterator)
     if not isinstance(
-        self._sliceable_iterator, prefetch.SupportsSlicedStateManagement
+        sliceable_iterator, prefetch.SupportsSlicedStateManagement
     ):
       raise ValueError(
           "ElasticIterDatasetIterator only supports"
@@ -260,7 +256,12 @@ class ElasticIterDatasetIterator(dataset.DatasetIterator):
     # We need to sort the states by the global shard index to ensure that the
     # states are set in the correct order.
     host_states = [state for _, state in sorted(ds_iterator_states.items())]
-    self._sliceable_iterator.set_shard_states(host_states)
+    # Replace the current iterator only once the states are known to be valid.
+    sliceable_iterator.set_shard_states(host_states)
+    self._iterator.close()
+    self._iterator = iterator
+    self._sliceable_iterator = sliceable_iterator
+    self._closed = False
 
   def get_state(self) -> Any:
     """Returns the state of the inner iterator.
diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 9c883eb..2f252ff 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -333,6 +333,11 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     }
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
+    if len(shard_states) != len(self._datasets):
+      raise ValueError(
+          f"Got {len(shard_states)} shard states for"
+          f" {len(self._datasets)} shards."
+      )
     active_states = []
     for indx, shard_state in enumerate(shard_states):
       if not shard_state["exhausted"]:
-- 
2.43.0


From 07396892f329a3f36f4d7df49b6f36c592cf8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 38/50] fix: data loader state restored around a legacy
 operation

An operation that had finished stayed finished when a state was set, and one
holding on to records mixed them with the restored position's.
---
 grain/_src/python/data_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grain/_src/python/data_loader.py b/grain/_src/python/data_loader.py
index dc0ef68..5185dc2 100644
--- a/grain/_src/python/data_loader.py
+++ b/grain/_src/python/data_loader.py
@@ -208,6 +208,8 @@ class _OperationDatasetIterator(dataset.DatasetIterator[_T]):
 
   def set_state(self, state):
     self._parent.set_state(state)
+    # The operation may have finished or hold on to records read before.
+    self._iterator = self._operation(self._parent)
 
 
 class _DataLoaderStateIterDataset(dataset.IterDataset[_T]):
-- 
2.43.0


From 1da3adbdfcdd3787581a6d887759575c7960aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 39/50] fix: views and mixed types in shared memory arrived
 changed

Views (and copies) of shared memory arrays were handed over with the name and
shape only, so another part of the block arrived. Batches in shared memory took
the type of their first element and failed for elements without any bytes.
Masked arrays lost their mask.
---
 grain/_src/python/data_loader.py              |  1 +
 .../python/dataset/transformations/batch.py   | 55 +++++++------------
 grain/_src/python/ipc/shared_memory_array.py  | 47 ++++++++++++++--
 grain/_src/python/operations.py               | 10 +++-
 4 files changed, 69 insertions(+), 44 deletions(-)

diff --git a/grain/_src/python/data_loader.py b/grain/_src/python/data_loader.py
index 5185dc2..8bb0d32 100644
--- a/grain/_src/python/data_loader.py
+++ b/grain/_src/python/data_loader.py
@@ -101,6 +101,7 @@ class CopyNumPyArrayToSharedMemory(transforms.Map):
           not isinstance(element, np.ndarray)
           or element.dtype.hasobject
           or not element.flags.c_contiguous
+          or element.nbytes == 0
       ):
         return element
 
diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index f3f2ce5..eb1c3cd 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -78,6 +78,19 @@ class _ShmAllocator:
     self._arrays.clear()
 
 
+def _stack_in_shm(xs: Sequence[Any], new_shm_array: _ShmAllocator) -> Any:
+  """Same as `np.stack`, but the result is in shared memory when possible."""
+  arrays = [np.asanyarray(x) for x in xs]
+  # Elements can differ in dtype, e.g. in the width of strings. The result must
+  # have the dtype `np.stack` would give it, an element that does not fit in the
+  # dtype of the first one would silently be truncated otherwise.
+  dtype = np.result_type(*(x.dtype for x in arrays))
+  shape = (len(arrays),) + arrays[0].shape
+  if dtype.hasobject or math.prod(shape) * dtype.itemsize == 0:
+    return np.stack(xs)
+  return np.stack(arrays, out=new_shm_array(shape, dtype=dtype))
+
+
 class _MakeBatchParallel:
   """A callable class for batching sequences of structured data in parallel.
 
@@ -112,20 +125,7 @@ class _MakeBatchParallel:
     if not self._output_to_shared_memory:
       return np.stack(xs)
 
-    first_arg = np.asanyarray(xs[0])
-    shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
-    if dtype.hasobject:
-      return np.stack(xs)
-    # For string dtypes, np.stack with a pre-allocated out= array would
-    # silently truncate strings longer than the first element's width.
-    # Fall back to safe np.stack (which infers max-width dtype) + copy.
-    if dtype.kind in ("U", "S"):
-      stacked = np.stack(xs)
-      shm_arr = new_shm_array(stacked.shape, dtype=stacked.dtype)
-      np.copyto(shm_arr, stacked, casting="no")
-      return shm_arr
-
-    return np.stack(xs, out=new_shm_array(shape, dtype=dtype))
+    return _stack_in_shm(xs, new_shm_array)
 
   def __call__(self, values: Sequence[T]) -> T:
     new_shm_array = _ShmAllocator()
@@ -139,10 +139,11 @@ class _MakeBatchParallel:
       xs = cast(Sequence[np.ndarray], xs)
       first_arg = xs[0]
       shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
-      # For string dtypes, the parallel path would silently truncate strings
-      # because the output array dtype is inferred from the first element only.
-      # Fall back to the serial _stack path which handles strings correctly.
-      if dtype.kind in ("U", "S"):
+      # The parallel path would silently cast (e.g. truncate strings) and
+      # broadcast because the output array is inferred from the first element
+      # only. Fall back to the serial _stack path which handles or refuses
+      # elements that differ.
+      if any(x.dtype != dtype or x.shape != first_arg.shape for x in xs):
         return self._stack(xs, new_shm_array)
       # Fall back to the standard serial `np.stack` operation if the size of
       # of the entire batch is smaller (measured in bytes) than the threshold.
@@ -211,23 +212,7 @@ def make_batch(
   stacking_function = lambda *xs: np.stack(xs)
   new_shm_array = _ShmAllocator()
   if output_to_shared_memory:
-
-    def shm_stacking_function(*args):
-      first_arg = np.asanyarray(args[0])
-      shape, dtype = (len(args),) + first_arg.shape, first_arg.dtype
-      if dtype.hasobject:
-        return np.stack(args)
-      # For string dtypes, np.stack with a pre-allocated out= array would
-      # silently truncate strings longer than the first element's width.
-      # Fall back to safe np.stack (which infers max-width dtype) + copy.
-      if dtype.kind in ("U", "S"):
-        stacked = np.stack(args)
-        shm_arr = new_shm_array(stacked.shape, dtype=stacked.dtype)
-        np.copyto(shm_arr, stacked, casting="no")
-        return shm_arr
-      return np.stack(args, out=new_shm_array(shape, dtype=dtype))
-
-    stacking_function = shm_stacking_function
+    stacking_function = lambda *xs: _stack_in_shm(xs, new_shm_array)
 
   try:
     return tree_lib.map_structure(stacking_function, *values)
diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 55a3325..92fb3de 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -35,6 +35,9 @@ class SharedMemoryArrayMetadata:
   name: str
   shape: Iterable[int]
   dtype: npt.DTypeLike
+  # Only differ from the default if the array is a view.
+  offset: int = 0
+  strides: tuple[int, ...] | None = None
 
   def close_and_unlink_shm(self) -> None:
     """Closes and unlinks the shared memory referred to by this instance."""
@@ -99,14 +102,25 @@ class SharedMemoryArray(np.ndarray):
       cls, metadata: SharedMemoryArrayMetadata
   ) -> SharedMemoryArray:
     shm = shared_memory.SharedMemory(metadata.name)
-    return cls.from_shared_memory(shm, metadata.shape, metadata.dtype)
+    return cls.from_shared_memory(
+        shm,
+        metadata.shape,
+        metadata.dtype,
+        metadata.offset,
+        metadata.strides,
+    )
 
   @property
   def metadata(self) -> SharedMemoryArrayMetadata:
     shm = self.shm
     assert isinstance(shm, shared_memory.SharedMemory)
+    offset, strides = self._layout_in_shm()
     return SharedMemoryArrayMetadata(
-        name=shm.name, shape=self.shape, dtype=self.dtype
+        name=shm.name,
+        shape=self.shape,
+        dtype=self.dtype,
+        offset=offset,
+        strides=strides,
     )
 
   @classmethod
@@ -115,16 +129,36 @@ class SharedMemoryArray(np.ndarray):
       shm: shared_memory.SharedMemory,
       shape: Any,
       dtype: npt.DTypeLike,
+      offset: int = 0,
+      strides: tuple[int, ...] | None = None,
   ) -> SharedMemoryArray:
-    obj = super().__new__(cls, shape, dtype, buffer=shm.buf)
+    obj = super().__new__(
+        cls, shape, dtype, buffer=shm.buf, offset=offset, strides=strides
+    )
     obj.shm = shm
     obj._unlink_on_del = False
     return obj
 
+  def _layout_in_shm(self) -> tuple[int, tuple[int, ...] | None]:
+    """Offset and strides (None if contiguous) of the array in its `shm`."""
+    shm_address = np.frombuffer(self.shm.buf, np.uint8).ctypes.data
+    return (
+        self.ctypes.data - shm_address,
+        None if self.flags.c_contiguous else self.strides,
+    )
+
   def __reduce_ex__(self, protocol):
+    if self.shm is None:
+      # A copy, which is not in shared memory.
+      return self.view(np.ndarray).__reduce_ex__(protocol)
     # For out-of-band pickling we don't need a PickleBuffer because the
     # `SharedMemory` class automatically pickles itself using only its name
-    return self.from_shared_memory, (self.shm, self.shape, self.dtype)
+    return self.from_shared_memory, (
+        self.shm,
+        self.shape,
+        self.dtype,
+        *self._layout_in_shm(),
+    )
 
   @classmethod
   def enable_async_del(
@@ -196,13 +230,14 @@ class SharedMemoryArray(np.ndarray):
 
 def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
   """Copies `leaf` to shared memory if it's a big enough numpy array."""
-  if isinstance(leaf, SharedMemoryArray):
+  if isinstance(leaf, SharedMemoryArray) and leaf.shm is not None:
     return leaf.metadata
   if (
       not isinstance(leaf, np.ndarray)
+      or isinstance(leaf, np.ma.MaskedArray)
       or leaf.dtype.hasobject
       or not leaf.flags.c_contiguous
-      or math.prod(leaf.shape) == 0
+      or leaf.nbytes == 0
       or leaf.nbytes < min_size
   ):
     return leaf
diff --git a/grain/_src/python/operations.py b/grain/_src/python/operations.py
index 9a86f4b..a356ba5 100644
--- a/grain/_src/python/operations.py
+++ b/grain/_src/python/operations.py
@@ -18,6 +18,7 @@ implementation for basic operations like MapOperation and FilterOperation (and
 Batch to follow soon) but users can also implement their own operations.
 """
 import dataclasses
+import math
 from typing import Any, Callable, Generic, Iterator, Protocol, Sequence, TypeVar
 
 from absl import logging
@@ -198,9 +199,12 @@ class BatchOperation(Generic[_IN, _OUT]):
     self._validate_structure(input_records)
 
     def stacking_function(*args):
-      first_arg = np.asanyarray(args[0])
-      shape, dtype = (len(args),) + first_arg.shape, first_arg.dtype
-      if not self._use_shared_memory or dtype.hasobject:
+      if not self._use_shared_memory:
+        return np.stack(args)
+      arrays = [np.asanyarray(x) for x in args]
+      dtype = np.result_type(*(x.dtype for x in arrays))
+      shape = (len(arrays),) + arrays[0].shape
+      if dtype.hasobject or math.prod(shape) * dtype.itemsize == 0:
         return np.stack(args)
       return np.stack(
           args, out=shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
-- 
2.43.0


From 84e4a44c8833537e36b5f705c481bd6d3bc2252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 40/50] fix: sequential slicing for workers lost, repeated and
 mixed up elements

Slicing only the source left the lengths of batches, repeats, slices, zips and
mixtures above it as they were before, so workers read elements several times,
elements of other shards, or failed. Datasets used twice in a pipeline were
sliced twice.
---
 grain/_src/python/dataset/dataset.py          |  3 +
 .../python/dataset/transformations/batch.py   |  3 +
 .../dataset/transformations/prefetch.py       | 76 +++++++++++++++----
 .../python/dataset/transformations/repeat.py  | 11 ++-
 .../python/dataset/transformations/source.py  |  4 +-
 5 files changed, 76 insertions(+), 21 deletions(-)

diff --git a/grain/_src/python/dataset/dataset.py b/grain/_src/python/dataset/dataset.py
index 21de5b8..6f3290b 100644
--- a/grain/_src/python/dataset/dataset.py
+++ b/grain/_src/python/dataset/dataset.py
@@ -385,6 +385,9 @@ class MapDataset(_Dataset, Generic[T], metaclass=MapDatasetMeta):
   def __getitem__(self, index):
     """Returns the element for the index or None if missing."""
 
+  def _update_length(self) -> None:
+    """Called when the lengths of the parents changed."""
+
   def _getitems(self, indices: Sequence[int]) -> Sequence[T | None]:
     """Returns a sequence of elements corresponding to the given indices.
 
diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index eb1c3cd..228123b 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -441,6 +441,9 @@ class BatchMapDataset(dataset.MapDataset[T]):
     self._batch_size = batch_size
     self._drop_remainder = drop_remainder
     self._batch_fn = make_batch if batch_fn is None else batch_fn
+    self._update_length()
+
+  def _update_length(self) -> None:
     self._length = self._get_length()
 
   def _get_length(self) -> int:
diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index a37ede5..27d2e01 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -29,12 +29,14 @@ from typing import Any, Optional, Protocol, TypeVar
 from absl import logging
 from concurrent import futures
 from grain._src.core import monitoring as grain_monitoring
+from grain._src.core import sharding
 from grain._src.python import options as grain_options
 from grain._src.python.dataset import base
 from grain._src.python.dataset import dataset
 from grain._src.python.dataset import stats as dataset_stats
 from grain._src.python.dataset.transformations import filter as filter_dataset
 from grain._src.python.dataset.transformations import interleave
+from grain._src.python.dataset.transformations import slice as slice_dataset
 from grain._src.python.dataset.transformations import source
 from grain._src.python.ipc import variable_size_queue
 
@@ -149,7 +151,7 @@ class PrefetchIterDataset(dataset.IterDataset[T]):
     if not sequential_slice:
       self._parents = (self._parent.slice(sl),)
     else:
-      _set_slice_map_dataset(self._parent, sl, sequential_slice)
+      self._parents = (_sequential_slice(self._parent, sl),)
 
   def __str__(self) -> str:
     return (
@@ -411,16 +413,24 @@ def _set_slice_iter_dataset(
    sl: slice to apply.
    sequential_slice: whether to apply sequential slicing.
   """
-  if isinstance(ds, SupportsInPlaceSlicing):
-    ds.set_slice(sl, sequential_slice)
-    return
-  if not ds.parents:
-    raise ValueError(f"Cannot slice `IterDataset` source. {type(ds)}")
-  for parent in ds.parents:
-    if isinstance(parent, dataset.MapDataset):
-      _set_slice_map_dataset(parent, sl, sequential_slice)
-    else:
-      _set_slice_iter_dataset(parent, sl, sequential_slice)
+  # A dataset can be used several times in a pipeline and must be sliced once.
+  visited = {}
+  to_visit = [ds]
+  while to_visit:
+    ds = to_visit.pop()
+    if id(ds) in visited:
+      continue
+    visited[id(ds)] = ds
+    if isinstance(ds, SupportsInPlaceSlicing):
+      ds.set_slice(sl, sequential_slice)
+      continue
+    if not ds.parents:
+      raise ValueError(f"Cannot slice `IterDataset` source. {type(ds)}")
+    for parent in ds.parents:
+      if isinstance(parent, dataset.MapDataset):
+        _set_slice_map_dataset(parent, sl, sequential_slice)
+      else:
+        to_visit.append(parent)
 
 
 def _set_slice_map_dataset(
@@ -444,11 +454,45 @@ def _set_slice_map_dataset(
     return
   if not ds.parents:
     raise ValueError(f"Cannot slice `MapDataset` source. {type(ds)}")
-  for parent in ds.parents:
-    if isinstance(parent, dataset.MapDataset):
-      _set_slice_map_dataset(parent, sl, sequential_slice)
-    else:
-      _set_slice_iter_dataset(parent, sl, sequential_slice)
+  if not sequential_slice:
+    for parent in ds.parents:
+      _set_slice_map_dataset(parent, sl)
+    return
+  ds._parents = tuple(_sequential_slice(p, sl) for p in ds.parents)  # pylint: disable=protected-access
+  ds._update_length()  # pylint: disable=protected-access
+
+
+class _SequentialSliceMapDataset(slice_dataset.SliceMapDataset[T]):
+  """Consecutive elements of a dataset that one worker processes."""
+
+
+# Lengths above this are considered to be infinite.
+_MAX_FINITE_LENGTH = 2**53
+
+
+def _sequential_slice(
+    ds: dataset.MapDataset[T], sl: slice
+) -> dataset.MapDataset[T]:
+  """Returns `ds` sliced sequentially, at its source if possible."""
+  if isinstance(ds, _SequentialSliceMapDataset):
+    return ds
+  if not isinstance(ds, SupportsInPlaceSlicing) and (
+      len(ds.parents) > 1
+      or isinstance(
+          ds, (slice_dataset.SliceMapDataset, slice_dataset.ReindexMapDataset)
+      )
+  ):
+    # Depends on positions in the parents, which are different once these are
+    # sliced.
+    length = len(ds)
+    if length < _MAX_FINITE_LENGTH:
+      start, stop = sharding.even_split(
+          length,
+          sharding.ShardOptions(shard_index=sl.start, shard_count=sl.step),
+      )
+      return _SequentialSliceMapDataset(ds, slice(start, stop))
+  _set_slice_map_dataset(ds, sl, sequential_slice=True)
+  return ds
 
 
 def get_dataset_options(ds: dataset.IterDataset) -> base.DatasetOptions:
diff --git a/grain/_src/python/dataset/transformations/repeat.py b/grain/_src/python/dataset/transformations/repeat.py
index 803c240..512532c 100644
--- a/grain/_src/python/dataset/transformations/repeat.py
+++ b/grain/_src/python/dataset/transformations/repeat.py
@@ -48,15 +48,18 @@ class RepeatMapDataset(dataset.MapDataset[T]):
           f"Repeating already infinite dataset {parent} does nothing."
       )
     self._num_epochs = num_epochs
-    self._parent_length = len(parent)
-    if num_epochs is None:
+    self._reseed_each_epoch = reseed_each_epoch
+    self._update_length()
+
+  def _update_length(self) -> None:
+    self._parent_length = len(self._parent)
+    if self._num_epochs is None:
       if self._parent_length == 0:  # pylint: disable=g-explicit-length-test
         self._length: int = 0
       else:
         self._length: int = sys.maxsize
     else:
-      self._length = num_epochs * self._parent_length
-    self._reseed_each_epoch = reseed_each_epoch
+      self._length = self._num_epochs * self._parent_length
 
   def __len__(self) -> int:
     return self._length
diff --git a/grain/_src/python/dataset/transformations/source.py b/grain/_src/python/dataset/transformations/source.py
index 9cec968..ca2848c 100644
--- a/grain/_src/python/dataset/transformations/source.py
+++ b/grain/_src/python/dataset/transformations/source.py
@@ -127,7 +127,9 @@ class SourceMapDataset(dataset.MapDataset):
         shard_count=workers_count,
         drop_remainder=False,
     )
-    shard_start, shard_end = sharding.even_split(self.__len__(), shard_options)
+    shard_start, shard_end = sharding.even_split(
+        len(self._original_source_map_dataset), shard_options
+    )
     return slice(shard_start, shard_end)
 
   def set_slice(self, sl: slice, sequential_slice: bool = False) -> None:
-- 
2.43.0


From dd6f907047cde075fecb9447750afa8fd0b7e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:45 +0000
Subject: [PATCH 41/50] fix: initial states of mp_prefetch came from the
 unsplit pipeline

---
 .../transformations/process_prefetch.py       | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 8ed6888..d6dee30 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -16,6 +16,7 @@
 from __future__ import annotations
 
 from collections.abc import Callable, Sequence
+import copy
 import functools
 from multiprocessing import queues
 from multiprocessing import sharedctypes
@@ -658,8 +659,31 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     return f"ProcessPrefetchDatasetIterator(buffer_size={self._buffer_size})"
 
 
+def _copy_pipeline(ds: Any, copies: dict[int, Any]) -> Any:
+  """Copies the dataset and its parents, but not what they contain."""
+  if id(ds) in copies:
+    return copies[id(ds)]
+  ds_copy = copies[id(ds)] = copy.copy(ds)
+  # Custom user Dataset implementations do not always have `_parents`.
+  if getattr(ds, "_parents", None):
+    # Datasets can have further references to their parents.
+    for name, value in vars(ds).items():
+      setattr(ds_copy, name, _copy_datasets(value, copies))
+  return ds_copy
+
+
+def _copy_datasets(value: Any, copies: dict[int, Any]) -> Any:
+  if isinstance(value, (dataset.MapDataset, dataset.IterDataset)):
+    return _copy_pipeline(value, copies)
+  if type(value) in (list, tuple):
+    return type(value)(_copy_datasets(v, copies) for v in value)
+  if type(value) is dict:
+    return {k: _copy_datasets(v, copies) for k, v in value.items()}
+  return value
+
+
 class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
-  """Applies slice to the parent dataset in the worker process."""
+  """Applies slice to the parent dataset when it is iterated over."""
 
   def __init__(
       self,
@@ -672,12 +696,13 @@ class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
     self._sequential_slice = sequential_slice
 
   def __iter__(self) -> dataset.DatasetIterator[T]:
-    if not _is_in_worker_process:
-      return self._parent.__iter__()
+    # The parent is shared by the slices of all workers. Note that iterators are
+    # also created in the main process, to get their states.
+    parent = _copy_pipeline(self._parent, {})
     prefetch._set_slice_iter_dataset(
-        self._parent, self._slice, self._sequential_slice
+        parent, self._slice, self._sequential_slice
     )
-    return self._parent.__iter__()
+    return parent.__iter__()
 
   @property
   def _element_spec(self) -> Any:
-- 
2.43.0


From 76d8cfafe77611072ba60b56498661d22dd6d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:37 +0000
Subject: [PATCH 42/50] fix: prefetching with workers changed the caller's
 dataset and batch function

---
 grain/_src/python/data_loader.py              |  3 +++
 .../python/dataset/transformations/batch.py   | 22 +++++++++++--------
 .../transformations/process_prefetch.py       | 10 +++++----
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/grain/_src/python/data_loader.py b/grain/_src/python/data_loader.py
index 8bb0d32..c0b7395 100644
--- a/grain/_src/python/data_loader.py
+++ b/grain/_src/python/data_loader.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 import collections
 import contextlib
+import copy
 import dataclasses
 import functools
 import json
@@ -729,6 +730,8 @@ def _apply_transform_to_dataset(
               batch_ds.make_batch, output_to_shared_memory=True
           )
         elif hasattr(self.values_batch_fn, "enable_shared_memory_output"):
+          # Can be in use elsewhere.
+          self.values_batch_fn = copy.copy(self.values_batch_fn)
           self.values_batch_fn.enable_shared_memory_output()
 
     batch_fn = _RecordBatchFn(values_batch_fn)
diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 228123b..49f340d 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 from collections.abc import Sequence
 import concurrent.futures
+import copy
 import functools
 import math
 import pprint
@@ -452,13 +453,12 @@ class BatchMapDataset(dataset.MapDataset[T]):
     else:
       return math.ceil(len(self._parent) / self._batch_size)
 
-  @functools.cached_property
-  def _get_parent_items_fn(self):
+  def _get_parent_items(self, items: Sequence[int]) -> Sequence[Any]:
     # Leverage batch pushdown API to retrieve multiple items at once if the
     # experiment is enabled.
     if _is_batch_map_pushdown_experiment_enabled():
-      return lambda items: self._parent._getitems(list(items))  # pylint: disable=protected-access
-    return lambda items: [self._parent[i] for i in items]
+      return self._parent._getitems(list(items))  # pylint: disable=protected-access
+    return [self._parent[i] for i in items]
 
   def __len__(self):
     return self._length
@@ -475,7 +475,7 @@ class BatchMapDataset(dataset.MapDataset[T]):
     # Add offset for epoch.
     start += epoch * len(self._parent)
     stop += epoch * len(self._parent)
-    values = self._get_parent_items_fn(range(start, stop))
+    values = self._get_parent_items(range(start, stop))
     with self._stats.record_self_time():
       try:
         return self._stats.record_output_spec(self._batch_fn(values))
@@ -510,6 +510,8 @@ class BatchMapDataset(dataset.MapDataset[T]):
           make_batch, output_to_shared_memory=True
       )
     elif hasattr(self._batch_fn, "enable_shared_memory_output"):
+      # Can be in use elsewhere.
+      self._batch_fn = copy.copy(self._batch_fn)
       self._batch_fn.enable_shared_memory_output()
 
 
@@ -572,11 +574,13 @@ class BatchIterDataset(dataset.IterDataset[T]):
     )
 
   def enable_shared_memory_output(self) -> None:
-    if isinstance(self._batch_fn, _MakeBatchParallel):
-      self._batch_fn.enable_shared_memory_output()
-    elif self._batch_fn is make_batch:
+    if self._batch_fn is make_batch:
       self._batch_fn = functools.partial(
           make_batch, output_to_shared_memory=True
       )
-    elif isinstance(self._batch_fn, base.SupportsSharedMemoryOutput):
+    elif isinstance(
+        self._batch_fn, (_MakeBatchParallel, base.SupportsSharedMemoryOutput)
+    ):
+      # Can be in use elsewhere.
+      self._batch_fn = copy.copy(self._batch_fn)
       self._batch_fn.enable_shared_memory_output()
diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index d6dee30..b679aa8 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -741,15 +741,17 @@ def multiprocess_prefetch(
 
   dataset_options = prefetch.get_dataset_options(ds)
 
+  # Enable SharedMemoryArray outputs if the transform supports it. Not for the
+  # dataset of the caller, which can also be iterated over without workers.
+  if num_workers > 1 and isinstance(ds, base.SupportsSharedMemoryOutput):
+    ds = copy.copy(ds)
+    ds.enable_shared_memory_output()
+
   shards = []
   for i in range(num_workers):
     if num_workers == 1:
       worker_ds = ds
     else:
-      # Enable SharedMemoryArray outputs if the transform supports it.
-      if isinstance(ds, base.SupportsSharedMemoryOutput):
-        ds.enable_shared_memory_output()
-
       worker_ds = _LazyWorkerSliceIterDataset(
           ds,
           slice(i, None, num_workers),
-- 
2.43.0


From f6ad29d2f95920f08a517d8711bcf24abb0f361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:51 +0000
Subject: [PATCH 43/50] fix: Parquet files without row groups could not be read

---
 .../python/dataset/sources/parquet_dataset.py | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/grain/_src/python/dataset/sources/parquet_dataset.py b/grain/_src/python/dataset/sources/parquet_dataset.py
index 970993e..d58b362 100644
--- a/grain/_src/python/dataset/sources/parquet_dataset.py
+++ b/grain/_src/python/dataset/sources/parquet_dataset.py
@@ -51,6 +51,8 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
     self._read_row_group_to_np_table()
 
   def _read_row_group_to_np_table(self):
+    if self._pq_file.num_row_groups == 0:
+      return  # Nothing was written to the file.
     table = self._pq_file.read_row_group(self._row_group)
     self._row_group_len = len(table)
     self._np_table = {}
@@ -59,20 +61,17 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
 
   def __next__(self):
     self._assert_not_closed()
-    if self._index_within_row_group >= self._row_group_len:
-      if self._row_group < self._pq_file.num_row_groups - 1:
-        self._row_group += 1
-        self._index_within_row_group = 0
-        self._read_row_group_to_np_table()
-        return self.__next__()
-      else:
+    while self._index_within_row_group >= self._row_group_len:
+      if self._row_group >= self._pq_file.num_row_groups - 1:
         raise StopIteration()
-    else:
-      item = {
-          k: v[self._index_within_row_group] for k, v in self._np_table.items()
-      }
-      self._index_within_row_group += 1
-      return item
+      self._row_group += 1
+      self._index_within_row_group = 0
+      self._read_row_group_to_np_table()
+    item = {
+        k: v[self._index_within_row_group] for k, v in self._np_table.items()
+    }
+    self._index_within_row_group += 1
+    return item
 
   def get_state(self):
     return {
-- 
2.43.0


From 02aee7caa1e40b067f75d23d0165229e1a25fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 44/50] fix: PackAndBatchOperation failed without input and
 kept a batch between epochs

---
 .../experimental/example_packing/packing.py   | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/grain/_src/python/experimental/example_packing/packing.py b/grain/_src/python/experimental/example_packing/packing.py
index 6f2df2e..340c90d 100644
--- a/grain/_src/python/experimental/example_packing/packing.py
+++ b/grain/_src/python/experimental/example_packing/packing.py
@@ -15,7 +15,7 @@ can't be added, we construct a new batch to which the element is added.
 """
 
 import dataclasses
-from typing import Any, Generic, Iterator, TypeVar, Union, cast
+from typing import Any, Generic, Iterator, TypeVar, cast
 
 from absl import logging
 from grain._src.core import tree_lib
@@ -202,8 +202,6 @@ class PackAndBatchOperation(Generic[_T]):
   length_struct: Any  # PyTree[int]
   batch_size: int
   max_sequences_per_bin: int | None = None
-  # We don't know input shapes and corresponding buffer shapes until __call__.
-  _cur_batch: Union[_PackedBatch, None] = None
 
   def __post_init__(self):
     logging.error(
@@ -214,10 +212,13 @@ class PackAndBatchOperation(Generic[_T]):
   def __call__(
       self, input_iterator: Iterator[record.Record[_T]]
   ) -> Iterator[record.Record[tuple[_T, _T, _T]]]:
+    # We don't know input shapes and corresponding buffer shapes until the first
+    # element. Note that the operation can be called several times.
+    cur_batch = None
     for element in input_iterator:
       # Use `element` to set dtypes + trailing dimensions.
-      if self._cur_batch is None:  # pytype: disable=attribute-error
-        self._cur_batch = _PackedBatch(
+      if cur_batch is None:
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
@@ -225,19 +226,20 @@ class PackAndBatchOperation(Generic[_T]):
         )
 
       # Try adding element to the current packed batch.
-      element_added_to_batch = self._cur_batch.try_add_to_batch(element)
+      element_added_to_batch = cur_batch.try_add_to_batch(element)
 
       # When we have a full batch, yield the current packed data,
       # and then start a new batch with this element.
       if not element_added_to_batch:
-        yield self._cur_batch.get_packed_batch()  # Main yield
-        self._cur_batch = _PackedBatch(
+        yield cur_batch.get_packed_batch()  # Main yield
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
             self.max_sequences_per_bin,
         )
-        self._cur_batch.try_add_to_batch(element)
+        cur_batch.try_add_to_batch(element)
 
     # Final batch
-    yield self._cur_batch.get_packed_batch()
+    if cur_batch is not None:
+      yield cur_batch.get_packed_batch()
-- 
2.43.0


From d23971a03cc5b837567f9ee6628173b3b30d476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:54 +0000
Subject: [PATCH 45/50] fix: execution tracking reordered or failed on some
 elements

---
 grain/_src/python/dataset/stats.py       |  6 +++++-
 grain/_src/python/dataset/stats_utils.py | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/stats.py b/grain/_src/python/dataset/stats.py
index 985bb39..6998587 100644
--- a/grain/_src/python/dataset/stats.py
+++ b/grain/_src/python/dataset/stats.py
@@ -802,7 +802,11 @@ class _VisualizationStats(Stats):
   def record_output_spec(self, element: T) -> T:
     # Visualize the dataset graph once last node had seen a non-None element.
     if self._self_output_spec is None:
-      self._self_output_spec = tree_lib.spec_like(element)
+      try:
+        self._self_output_spec = tree_lib.spec_like(element)
+      except Exception:  # pylint: disable=broad-except
+        # Elements that can't be described must not fail the pipeline.
+        self._self_output_spec = f"{type(element).__name__}[unknown spec]"
       if self._is_output and not self._reported:
         # The check above with update without a lock is not atomic, need to
         # check again under a lock.
diff --git a/grain/_src/python/dataset/stats_utils.py b/grain/_src/python/dataset/stats_utils.py
index 8498c06..1ec59b0 100644
--- a/grain/_src/python/dataset/stats_utils.py
+++ b/grain/_src/python/dataset/stats_utils.py
@@ -227,7 +227,15 @@ def _record_leaf_size(element: Any, memory_buffer: list[int]) -> Any:
 
 def record_size(element: Any, memory_buffer: list[int]) -> Any:
   """Records the size of the element in the memory buffer."""
-  return tree_lib.map_structure(
-      functools.partial(_record_leaf_size, memory_buffer=memory_buffer),
-      element,
-  )
+  try:
+    tree_lib.map_structure(
+        functools.partial(_record_leaf_size, memory_buffer=memory_buffer),
+        element,
+    )
+  except Exception as e:  # pylint: disable=broad-except
+    # Elements that can't be traversed must not fail the pipeline.
+    logging.log_first_n(
+        logging.WARNING, "Failed to estimate memory usage: %s", 1, e
+    )
+  # The mapped structure is not necessarily the same, e.g. `dict`s get sorted.
+  return element
-- 
2.43.0


From e8dcffd92ee73a10de89ad54f8c7bdbb75633fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:54 +0000
Subject: [PATCH 46/50] fix: execution summary overwrote stages next to
 prefetching or interleaving

---
 grain/_src/python/dataset/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grain/_src/python/dataset/stats.py b/grain/_src/python/dataset/stats.py
index 6998587..03d3a35 100644
--- a/grain/_src/python/dataset/stats.py
+++ b/grain/_src/python/dataset/stats.py
@@ -1083,6 +1083,7 @@ class _MPPrefetchExecutionStats(_ExecutionStats):
     execution_summary = stats_utils.get_complete_summary(
         execution_summary, combined_summary_from_workers, current_node_id + 1
     )
+    node_id += len(combined_summary_from_workers.nodes)
     for p in self._parents:
       node_id += 1
       execution_summary.nodes[current_node_id].inputs.append(node_id)
@@ -1152,6 +1153,7 @@ class _InterleaveExecutionStats(_ExecutionStats):
     execution_summary = stats_utils.get_complete_summary(
         execution_summary, combined_summary, current_node_id + 1
     )
+    node_id += len(combined_summary.nodes)
     return execution_summary, node_id
 
 
-- 
2.43.0


From f9f683338a2d34e6ba034b0aca520798e4118835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:55 +0000
Subject: [PATCH 47/50] fix: options were not applied to interleaved datasets
 after an early get_state

---
 .../dataset/transformations/interleave.py       | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 2f252ff..834b876 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -97,7 +97,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self) -> T:
     self._assert_not_closed()
-    self._started = True
+    if not self._started:
+      self._propagate_options()
+      self._started = True
     if not self._cycle_length:
       # There are no datasets to interleave.
       raise StopIteration
@@ -439,7 +441,20 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       if exhausted is not None:
         exhausted[1].close()
 
+  def _propagate_options(self):
+    """Propagates options applied after early `get_state` calls.
+
+    Iterators can be created by `get_state` when the pipeline is being built, at
+    which point the options applied later in the pipeline are not yet known.
+    """
+    for it in self._iterators_in_use:
+      if it is not None:
+        it._ctx.dataset_options = self._ctx.dataset_options.merge(  # pylint: disable=protected-access
+            it._ctx.dataset_options  # pylint: disable=protected-access
+        )
+
   def start_prefetch(self):
+    self._propagate_options()
     for it in self._iterators_in_use:
       if it is not None:
         it.start_prefetch()
-- 
2.43.0


From ea4ac11ee904f9e654147cca2737a0cc732febd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:49 +0000
Subject: [PATCH 48/50] fix: mixing datasets given as a mapping could swap
 their weights

---
 grain/_src/python/dataset/transformations/mix.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index 37d552e..f3913e6 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -276,6 +276,16 @@ class MixedIterDataset(dataset.IterDataset[T]):
     # Normalize proportions
     if proportions is None:
       proportions = [1] * len(flat_parents)
+    elif isinstance(parents, Mapping):
+      if set(parents) != set(proportions):
+        raise ValueError(
+            "Keys of the proportions do not match keys of the datasets: "
+            f"{list(proportions)} vs {list(parents)}."
+        )
+      # Order of the flattened values depends on the type of the mapping.
+      proportions = tree_lib.flatten(
+          tree_lib.map_structure_up_to(parents, lambda p: p, proportions)
+      )
     else:
       proportions = tree_lib.flatten(proportions)
 
-- 
2.43.0


From eefc230e78c03c8fb72909ea7b7da6fa8b8315a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:49 +0000
Subject: [PATCH 49/50] fix: rebatching mixed up features of batches with
 different structures

---
 grain/_src/python/dataset/transformations/rebatch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index 4abb439..52a183a 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -106,6 +106,8 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
     """Flattens the pytree element, if first time, caches the tree def."""
     if self._treedef is None:
       self._treedef = pytree_element
+    else:
+      tree_lib.assert_same_structure(self._treedef, pytree_element)
     return tree_lib.flatten(pytree_element)
 
   @stats.record_next_duration_if_output
-- 
2.43.0


From ab7a9ff00db0cb4222499f3724045fc76138fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:13 +0000
Subject: [PATCH 50/50] fix: pure Python tree utilities depended on dict order
 and dropped mismatches

Without jax, flatten() followed the insertion order of dict keys, so that
batching, packing or mixing elements whose features come in a different order
swapped the features. map_structure() and unflatten_as() silently dropped what
did not match. Follow jax: keys are sorted, None is an empty node and
structures that do not match are refused.
---
 grain/_src/core/tree_lib.py | 93 ++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 38 deletions(-)

diff --git a/grain/_src/core/tree_lib.py b/grain/_src/core/tree_lib.py
index 75e4867..49a81c3 100644
--- a/grain/_src/core/tree_lib.py
+++ b/grain/_src/core/tree_lib.py
@@ -86,49 +86,53 @@ try:
 
 except ImportError:
 
+  def _sorted_items(mapping):
+    """Items in the order that does not depend on how the dict was built."""
+    if isinstance(mapping, collections.OrderedDict):
+      return list(mapping.items())
+    try:
+      return [(k, mapping[k]) for k in sorted(mapping)]
+    except TypeError:  # keys can't be compared
+      return list(mapping.items())
+
+  def _keys(mapping):
+    return [k for k, _ in _sorted_items(mapping)]
+
+  def _check_same_node(a, *others):
+    """Checks that container `a` can be mapped over together with `others`."""
+    for b in others:
+      if a is None:
+        same = b is None
+      elif isinstance(a, _SEQUENCE_TYPES):
+        same = isinstance(b, _SEQUENCE_TYPES) and len(a) == len(b)
+      else:
+        same = isinstance(b, _MAPPING_TYPES) and _keys(a) == _keys(b)
+      if not same:
+        raise ValueError(f"Structures are not the same: a = {a}, b = {b}")
+
   def map_structure(f, *trees, is_leaf=None):
     """Pure Python version of `jax.tree_util.tree_map`."""
-    a = trees[0]
-    if is_leaf is not None and is_leaf(a):
-      return f(*trees)
-    elif isinstance(a, _SEQUENCE_TYPES):
-      new_items = (map_structure(f, *v, is_leaf=is_leaf) for v in zip(*trees))
-      if epy.is_namedtuple(a):
-        return type(a)(*new_items)
-      else:
-        return type(a)(new_items)
-    elif isinstance(a, _MAPPING_TYPES):
-      new_items = (
-          (k, map_structure(f, *v, is_leaf=is_leaf))
-          for k, v in epy.zip_dict(*trees)
-      )
-      if isinstance(a, collections.defaultdict):
-        new_tree = type(a)(a.default_factory)
-        new_tree.update(new_items)
-        return new_tree
-      else:
-        return type(a)(new_items)
-    else:  # leaf
-      return f(*trees)
+    return _map_structure_with_path(
+        (), lambda _, *leaves: f(*leaves), *trees, is_leaf=is_leaf
+    )
 
   def flatten(structure):
-    if isinstance(structure, _SEQUENCE_TYPES):
-      return list(itertools.chain.from_iterable(flatten(v) for v in structure))
-    elif isinstance(structure, _MAPPING_TYPES):
-      return list(
-          itertools.chain.from_iterable(
-              flatten(v) for _, v in structure.items()
-          )
-      )
-    else:  # leaf
-      return [structure]
+    return [leaf for _, leaf in flatten_with_path(structure)]
 
   def unflatten_as(structure, flat_sequence):
+    flat_sequence = list(flat_sequence)
+    num_leaves = len(flatten(structure))
+    if len(flat_sequence) != num_leaves:
+      raise ValueError(
+          f"Expected {num_leaves} leaves, got {len(flat_sequence)}."
+      )
     return _unflatten_iter_as(structure, iter(flat_sequence))
 
   def _unflatten_iter_as(structure, flat_iter):
     """`unflatten` recursive implementation."""
-    if isinstance(structure, _SEQUENCE_TYPES):
+    if structure is None:
+      return None
+    elif isinstance(structure, _SEQUENCE_TYPES):
       new_items = (_unflatten_iter_as(v, flat_iter) for v in structure)
       if epy.is_namedtuple(structure):
         return type(structure)(*new_items)
@@ -136,7 +140,8 @@ except ImportError:
         return type(structure)(new_items)
     elif isinstance(structure, _MAPPING_TYPES):
       new_items = (
-          (k, _unflatten_iter_as(v, flat_iter)) for k, v in structure.items()
+          (k, _unflatten_iter_as(v, flat_iter))
+          for k, v in _sorted_items(structure)
       )
       if isinstance(structure, collections.defaultdict):
         new_tree = type(structure)(structure.default_factory)
@@ -160,6 +165,10 @@ except ImportError:
         raise AssertionError(
             f"structures have different types: {type(a)} != {type(b)}"
         )
+    elif isinstance(b, _ALL_TYPES) or (a is None) != (b is None):
+      raise AssertionError(
+          f"structures have different types: {type(a)} != {type(b)}"
+      )
     if isinstance(a, _SEQUENCE_TYPES):
       if len(a) != len(b):
         raise AssertionError(
@@ -171,8 +180,8 @@ except ImportError:
         except AssertionError as e:
           epy.reraise(e, prefix=f"In {i}: ")
     elif isinstance(a, _MAPPING_TYPES):
-      k0 = sorted(a)
-      k1 = sorted(b)
+      k0 = _keys(a)
+      k1 = _keys(b)
       if k0 != k1:
         raise AssertionError(f"dict keys do not match: {k0} != {k1}")
       # Flatten sort the keys, so reconstruct the ordered sorted
@@ -189,7 +198,9 @@ except ImportError:
 
   def _flatten_with_path(prefix, structure):
     """Recursive implementation of `flatten_with_path`."""
-    if isinstance(structure, _SEQUENCE_TYPES):
+    if structure is None:
+      return []
+    elif isinstance(structure, _SEQUENCE_TYPES):
       return list(
           itertools.chain.from_iterable(
               _flatten_with_path(prefix + (i,), v)
@@ -199,7 +210,8 @@ except ImportError:
     elif isinstance(structure, _MAPPING_TYPES):
       return list(
           itertools.chain.from_iterable(
-              _flatten_with_path(prefix + (k,), v) for k, v in structure.items()
+              _flatten_with_path(prefix + (k,), v)
+              for k, v in _sorted_items(structure)
           )
       )
     else:  # leaf
@@ -213,7 +225,11 @@ except ImportError:
     a = trees[0]
     if is_leaf is not None and is_leaf(a):
       return f(prefix, *trees)
+    elif a is None:
+      _check_same_node(*trees)
+      return None
     elif isinstance(a, _SEQUENCE_TYPES):
+      _check_same_node(*trees)
       new_items = (
           _map_structure_with_path(prefix + (i,), f, *v, is_leaf=is_leaf)
           for i, v in enumerate(zip(*trees))
@@ -223,6 +239,7 @@ except ImportError:
       else:
         return type(a)(new_items)
     elif isinstance(a, _MAPPING_TYPES):
+      _check_same_node(*trees)
       new_items = (
           (k, _map_structure_with_path(prefix + (k,), f, *v, is_leaf=is_leaf))
           for k, v in epy.zip_dict(*trees)
-- 
2.43.0

