From fbab9c012c7679340a1e3476d3a6add484eafcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 01/51] fix: compute sequence slice offsets exactly in the
 sharder

The float product slice * samples_per_sequence may fall just below the integer
end offset, such that the last sample of a slice was never assigned.
---
 src/megatron/energon/flavors/webdataset/sharder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sharder.py b/src/megatron/energon/flavors/webdataset/sharder.py
index fb35bf9..c7915eb 100644
--- a/src/megatron/energon/flavors/webdataset/sharder.py
+++ b/src/megatron/energon/flavors/webdataset/sharder.py
@@ -24,11 +24,12 @@ class Sharder:
         ):
             # Split the shard into slices of max_samples_per_sequence (more or less)
             slice_count = max(round((end_offset - start_offset) / max_samples_per_sequence), 1)
-            samples_per_sequence = (end_offset - start_offset) / slice_count
             # Note this must include the end offset as well, so slice_count + 1 steps (down there,
-            # idx+1 is used to access the end offset)
+            # idx+1 is used to access the end offset). Use integer arithmetic, such that the last
+            # offset is exactly the end offset.
             offsets = [
-                start_offset + int(slice * samples_per_sequence) for slice in range(slice_count + 1)
+                start_offset + (slice * (end_offset - start_offset)) // slice_count
+                for slice in range(slice_count + 1)
             ]
             return [
                 [
-- 
2.43.0


From b7d94ab59cbd4a814895a52dfde3421a5891cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 02/51] fix: do not alias the passed state when restoring,
 iterating would modify it

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++---
 src/megatron/energon/wrappers/base.py                    | 3 ++-
 src/megatron/energon/wrappers/batch_dataset.py           | 4 ++--
 src/megatron/energon/wrappers/buffer.py                  | 2 +-
 src/megatron/energon/wrappers/epochize_dataset.py        | 2 +-
 src/megatron/energon/wrappers/limit_dataset.py           | 2 +-
 src/megatron/energon/wrappers/log_sample_dataset.py      | 2 +-
 src/megatron/energon/wrappers/map_dataset.py             | 4 ++--
 src/megatron/energon/wrappers/packing_dataset.py         | 2 +-
 src/megatron/energon/wrappers/repeat_dataset.py          | 2 +-
 10 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 3642e18..d42b04c 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -749,9 +749,9 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                     state.active_shards, self.shards_by_key
                 )
             ]
-            self._sample_count = state.sample_count
-            self._epoch_count = state.epoch_count
-            self._epoch_sample_count = state.epoch_sample_count
+            self._sample_count = list(state.sample_count)
+            self._epoch_count = list(state.epoch_count)
+            self._epoch_sample_count = list(state.epoch_sample_count)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/base.py b/src/megatron/energon/wrappers/base.py
index afe7cd6..6350010 100644
--- a/src/megatron/energon/wrappers/base.py
+++ b/src/megatron/energon/wrappers/base.py
@@ -198,7 +198,8 @@ class SampleIndex:
             self._sample_index = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert len(state) == len(self._sample_index)
-            self._sample_index = state
+            # Copy, such that iterating does not modify the passed state
+            self._sample_index = list(state)
 
 
 def get_sample_restore_key(sample: Any) -> Optional[Union[str, int]]:
diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index ab66da2..4d51c62 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -251,8 +251,8 @@ class BatchDataset(
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, BatchGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/buffer.py b/src/megatron/energon/wrappers/buffer.py
index 730e504..11a5de8 100644
--- a/src/megatron/energon/wrappers/buffer.py
+++ b/src/megatron/energon/wrappers/buffer.py
@@ -139,7 +139,7 @@ class SavableSampleBuffer(BaseWrapperDataset[T_sample], Generic[T_sample]):
             assert isinstance(state, SampleBufferMergedState)
             assert len(state.buffer) == max(self.worker_config.num_workers, 1)
             self._buffer = [[] for _ in range(max(self.worker_config.num_workers, 1))]
-            self._restore_keys = state.buffer
+            self._restore_keys = [list(restore_keys) for restore_keys in state.buffer]
             self._restore_pending = True
 
     def restore_key(self) -> Tuple[Union[str, int], ...]:
diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 0dcc326..724c025 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -128,7 +128,7 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, EpochizeMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index c32f6c6..e95772d 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -133,7 +133,7 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
             self._current_offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LimitMergedState)
-            self._current_offset = state.offset
+            self._current_offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/log_sample_dataset.py b/src/megatron/energon/wrappers/log_sample_dataset.py
index 772b180..b0582e5 100644
--- a/src/megatron/energon/wrappers/log_sample_dataset.py
+++ b/src/megatron/energon/wrappers/log_sample_dataset.py
@@ -130,7 +130,7 @@ class LogSampleDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_s
             self._step = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LogSampleMergedState)
-            self._step = state.step
+            self._step = list(state.step)
 
     def config(self) -> Dict[str, Any]:
         # Transparent logger, it won't change the samples
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 7f9122b..474e156 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -219,8 +219,8 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
             assert isinstance(state, MapMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, MapGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index eaa8806..e6bcf98 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -316,7 +316,7 @@ class PackingDataset(
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
             self._pre_packing_buffer.restore_state(state.pre_packing_buffer)
-            self._pre_packing_lengths = state.pre_packing_lengths
+            self._pre_packing_lengths = [list(lengths) for lengths in state.pre_packing_lengths]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
 
diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index fd491cb..e0eb685 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -106,7 +106,7 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, RepeatMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 22acc1dbe50b5925f5d8f93a851cd13028b9c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 03/51] fix: resume map and batch generators with their
 original sample index

---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 src/megatron/energon/wrappers/map_dataset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 4d51c62..06ecf8b 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -135,7 +135,7 @@ class BatchDataset(
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
+            with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
                 batch_sample = self.batcher(batch)
             assert isinstance(batch_sample, Generator)
             assert inspect.isgeneratorfunction(
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 474e156..e98c6f1 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -112,7 +112,7 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
             # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
+            with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
                 mapped_sample = self.map_fn(sample)
             assert isinstance(mapped_sample, Generator)
             assert inspect.isgeneratorfunction(
-- 
2.43.0


From 5d983d9a2de42af05d635023bb5f17b687b4a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 04/51] fix: start every batch with its own restore keys, also
 after a failed or skipped batch

---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 06ecf8b..fc0839e 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -187,7 +187,6 @@ class BatchDataset(
                 else:
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
-                sample_restore_keys.clear()
             except SkipSample:
                 pass
             except SYSTEM_EXCEPTIONS:
@@ -201,6 +200,7 @@ class BatchDataset(
             if len(batch) == self.batch_size:
                 yield from flush()
                 batch = []
+                sample_restore_keys = []
         if len(batch) > 0 and not self.drop_last:
             yield from flush()
 
-- 
2.43.0


From 3831ba20db3f50f275a3d8d22b888fa0be2904f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 05/51] fix: correct length of BatchDataset for workers with an
 extra sample

---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index fc0839e..ae79618 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -118,7 +118,7 @@ class BatchDataset(
             n_batches_per_worker_floor += 1
         # Correct number of batches for the workers which yield 1 more sample (to balance)
         n_batches_per_worker_ceil = (n_samples_per_worker_floor + 1) // self.batch_size
-        if n_batches_per_worker_ceil % self.batch_size != 0 and not self.drop_last:
+        if (n_samples_per_worker_floor + 1) % self.batch_size != 0 and not self.drop_last:
             n_batches_per_worker_ceil += 1
 
         return (
-- 
2.43.0


From 98fe52c22329ff1e62bbafd348165af825cc82d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 06/51] fix: drop the state of a failed map or batch generator
 and handle failures of resumed ones

---
 .../energon/wrappers/batch_dataset.py         | 63 +++++++++++--------
 src/megatron/energon/wrappers/map_dataset.py  | 61 +++++++++++-------
 2 files changed, 75 insertions(+), 49 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index ae79618..0a918ee 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -135,30 +135,37 @@ class BatchDataset(
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
-                batch_sample = self.batcher(batch)
-            assert isinstance(batch_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.batcher
-            ), f"Generator in {self.batcher} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
-                self._sample_index.iter_ctx(batch_sample, sample_idx)
-            ):
-                # Skip other samples
-                if batch_sub_idx >= target_offset:
-                    self._generator_offsets[worker_id] = batch_sub_idx + 1
-                    yield set_sample_restore_key(
-                        inner_batch_sample,
-                        sample_idx,
-                        batch_sub_idx,
-                        *sample_restore_keys,
-                        src=self,
-                    )
-            self._generator_sample_keys[worker_id] = None
-            self._generator_offsets[worker_id] = None
-            batch.clear()
+            try:
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    batch_sample = self.batcher(batch)
+                assert isinstance(batch_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.batcher
+                ), f"Generator in {self.batcher} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                self._generator_offsets[worker_id] = 0
+                for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
+                    self._sample_index.iter_ctx(batch_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if batch_sub_idx >= target_offset:
+                        self._generator_offsets[worker_id] = batch_sub_idx + 1
+                        yield set_sample_restore_key(
+                            inner_batch_sample,
+                            sample_idx,
+                            batch_sub_idx,
+                            *sample_restore_keys,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(batch)
+            except Exception as e:
+                self._reset_generator(worker_id)
+                self.error_handler(e, batch)
+            self._reset_generator(worker_id)
+            batch = []
             sample_restore_keys = []
 
         def flush():
@@ -188,10 +195,11 @@ class BatchDataset(
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
             except SkipSample:
-                pass
+                self._reset_generator(worker_id)
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(batch)
             except Exception as e:
+                self._reset_generator(worker_id)
                 self.error_handler(e, batch)
 
         for sample in self.dataset:
@@ -204,6 +212,11 @@ class BatchDataset(
         if len(batch) > 0 and not self.drop_last:
             yield from flush()
 
+    def _reset_generator(self, worker_id: int) -> None:
+        # There is no active generator (any more), do not resume it when restoring
+        self._generator_sample_keys[worker_id] = None
+        self._generator_offsets[worker_id] = None
+
     def save_state(self) -> BatchState:
         state = BatchState.extend(
             super().save_state(),
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index e98c6f1..bbfa3e9 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -111,29 +111,36 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
         if self._generator_sample_keys[worker_id] is not None:
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
-            # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
-                mapped_sample = self.map_fn(sample)
-            assert isinstance(mapped_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.map_fn
-            ), f"Generator in {self.map_fn} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for idx, (sample_idx, inner_sample) in enumerate(
-                self._sample_index.iter_ctx(mapped_sample, sample_idx)
-            ):
-                # Skip other samples
-                if idx >= target_offset:
-                    self._generator_offsets[worker_id] = idx + 1
-                    yield add_sample_restore_key(
-                        inner_sample,
-                        sample_idx,
-                        idx,
-                        src=self,
-                    )
-            self._generator_sample_keys[worker_id] = None
-            self._generator_offsets[worker_id] = None
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    mapped_sample = self.map_fn(sample)
+                assert isinstance(mapped_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.map_fn
+                ), f"Generator in {self.map_fn} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                self._generator_offsets[worker_id] = 0
+                for idx, (sample_idx, inner_sample) in enumerate(
+                    self._sample_index.iter_ctx(mapped_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if idx >= target_offset:
+                        self._generator_offsets[worker_id] = idx + 1
+                        yield add_sample_restore_key(
+                            inner_sample,
+                            sample_idx,
+                            idx,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(sample)
+            except Exception as e:
+                self._reset_generator(worker_id)
+                self.error_handler(e, sample)
+            self._reset_generator(worker_id)
 
         for sample in self.dataset:
             try:
@@ -166,12 +173,18 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                         src=self,
                     )
             except SkipSample:
-                pass
+                self._reset_generator(worker_id)
             except SYSTEM_EXCEPTIONS as e:
                 raise FatalSampleError.from_sample(sample)
             except Exception as e:
+                self._reset_generator(worker_id)
                 self.error_handler(e, sample)
 
+    def _reset_generator(self, worker_id: int) -> None:
+        # There is no active generator (any more), do not resume it when restoring
+        self._generator_sample_keys[worker_id] = None
+        self._generator_offsets[worker_id] = None
+
     def save_state(self) -> MapState:
         state = MapState.extend(
             super().save_state(),
-- 
2.43.0


From d49a89e49a99f00bb78f8328040d7720ed818832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 07/51] fix: restore group batch buckets to the worker they
 belong to

---
 src/megatron/energon/wrappers/group_batch_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 070e936..661aa75 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -272,9 +272,9 @@ class GroupBatchDataset(
                             SampleBufferMergedState(
                                 buffer=[
                                     (
-                                        []
+                                        bucket_state.samples.buffer
                                         if gen_worker_idx == worker_idx
-                                        else bucket_state.samples.buffer
+                                        else []
                                     )
                                     for gen_worker_idx in range(
                                         max(self.worker_config.num_workers, 1)
-- 
2.43.0


From 8b2b038b2c42af283c64cb835868e56197a67bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 08/51] fix: reset the sample indices of GroupBatchDataset when
 restoring the initial state

---
 src/megatron/energon/wrappers/group_batch_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 661aa75..1117873 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -249,6 +249,8 @@ class GroupBatchDataset(
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
         super().restore_state(state)
         if state is None:
+            self._group_key_sample_index.restore_state(None)
+            self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
         else:
             assert isinstance(state, GroupBatchMergedState)
-- 
2.43.0


From b7aa52ee0989353bab64618f82baf1803103acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 09/51] fix: no pending packs for workers without a saved
 packing state

---
 src/megatron/energon/wrappers/packing_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index e6bcf98..d724ee5 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -295,7 +295,7 @@ class PackingDataset(
             pre_packing_buffer=self._pre_packing_buffer.merge_states(
                 [None if s is None else s.pre_packing_buffer for s in states]
             ),
-            pre_packing_lengths=[[0, 0] if s is None else s.pre_packing_lengths for s in states],
+            pre_packing_lengths=[[] if s is None else s.pre_packing_lengths for s in states],
             final_packing_index=self._final_packing_sample_index.merge_states(
                 [0 if state is None else state.final_packing_index for state in states]
             ),
-- 
2.43.0


From 38d05cae8e1c371265118c70ea4418b91efb967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 10/51] fix: reset the worker rng when restoring the initial
 state

---
 src/megatron/energon/rng.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 6fdf81d..40cbea0 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -111,6 +111,8 @@ class WorkerRng:
 
     def restore_state(self, state: Optional[WorkerRngMergedState]) -> None:
         if state is None:
+            # Drop the current generator, the initial state is to be used again
+            self._rng = None
             self._restore_states = None
         else:
             assert isinstance(state, WorkerRngMergedState)
-- 
2.43.0


From 3e1fea2a574ae9dfc1d94bfabdf77ae080175585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 11/51] fix: RepeatDataset keeps the active repetition when
 restored and starts over in the next pass

---
 src/megatron/energon/wrappers/repeat_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index e0eb685..fafcfa2 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -73,9 +73,10 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                     )
         else:
             for offset in range(self._offset[worker_idx], self.repeats):
-                self._offset[worker_idx] = offset + 1
                 for sample in self.dataset:
                     yield sample
+                # Only count completed repetitions, the inner dataset resumes the active one
+                self._offset[worker_idx] = offset + 1
                 if self.worker_config.should_log(level=2):
                     self.worker_config.worker_log(
                         {
@@ -86,6 +87,8 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                             "repeats": self.repeats,
                         }
                     )
+            # Start over with the next iteration
+            self._offset[worker_idx] = 0
 
     def save_state(self) -> RepeatState:
         return RepeatState.extend(
-- 
2.43.0


From 19e2b6af5b0134b5274adf5173841801a44dc2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 12/51] fix: ConcatDataset continues with the active dataset
 when restored

---
 .../energon/wrappers/concat_dataset.py        | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/concat_dataset.py b/src/megatron/energon/wrappers/concat_dataset.py
index 3efce37..3dd42a4 100644
--- a/src/megatron/energon/wrappers/concat_dataset.py
+++ b/src/megatron/energon/wrappers/concat_dataset.py
@@ -20,12 +20,16 @@ T_sample = TypeVar("T_sample")
 class ConcatState(State):
     #: State of the inner datasets
     dataset_states: List[State]
+    #: Index of the dataset being iterated
+    dataset_idx: int = 0
 
 
 @dataclass
 class ConcatMergedState(MergedState):
     #: State of the inner datasets
     dataset_states: List[MergedState]
+    #: Index of the dataset being iterated for each worker, None means the first for all workers
+    dataset_idx: Optional[List[int]] = None
 
 
 class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
@@ -36,6 +40,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     """
 
     datasets: Tuple[SavableDataset[T_sample], ...]
+    _dataset_idx: List[int]
 
     def __init__(
         self,
@@ -45,19 +50,24 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         """Construct a concatenated dataset."""
         super().__init__(datasets, worker_config=worker_config)
         self.datasets = datasets
+        self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
         assert len(self) >= 0, "Datasets must be finite."
 
     def __len__(self):
         return sum(len(dataset) for dataset in self.datasets)
 
     def __iter__(self) -> Iterator[T_sample]:
-        for ds_idx, dataset in enumerate(self.datasets):
-            for sample in dataset:
+        worker_idx = self.worker_config.rank_worker_id()
+        for ds_idx in range(self._dataset_idx[worker_idx], len(self.datasets)):
+            self._dataset_idx[worker_idx] = ds_idx
+            for sample in self.datasets[ds_idx]:
                 yield add_sample_restore_key(
                     sample,
                     ds_idx,
                     src=self,
                 )
+        # Start over with the next iteration
+        self._dataset_idx[worker_idx] = 0
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset in self.datasets)
@@ -65,6 +75,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     def save_state(self) -> ConcatState:
         return ConcatState(
             dataset_states=[dataset.save_state() for dataset in self.datasets],
+            dataset_idx=self._dataset_idx[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[ConcatState]) -> ConcatMergedState:
@@ -77,17 +88,23 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
                 )
                 for ds_idx, dataset in enumerate(self.datasets)
             ],
+            dataset_idx=[0 if s is None else s.dataset_idx for s in states],
         )
 
     def restore_state(self, state: Optional[ConcatMergedState]) -> None:
         if state is None:
             for dataset in self.datasets:
                 dataset.restore_state(None)
+            self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ConcatMergedState)
             assert len(self.datasets) == len(state.dataset_states)
             for dataset, dstate in zip(self.datasets, state.dataset_states):
                 dataset.restore_state(dstate)
+            if state.dataset_idx is None:
+                self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
+            else:
+                self._dataset_idx = list(state.dataset_idx)
 
     def can_restore_sample(self) -> bool:
         return all(dataset.can_restore_sample() for dataset in self.datasets)
-- 
2.43.0


From 37be02559c8a281511f61c10a1814cdb29640cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 13/51] fix: EpochizeDataset drops the active iterator when
 restoring

---
 src/megatron/energon/wrappers/epochize_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 724c025..d6c2f27 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -124,6 +124,8 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
 
     def restore_state(self, state: Optional[EpochizeMergedState]) -> None:
         super().restore_state(state)
+        # The active iterator does not know about the restored state
+        self._active_iter = None
         if state is None:
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
-- 
2.43.0


From 263d932e136a29a099d4b7612de57ace79b550cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 14/51] fix: restore keys of BlendDataset index all datasets,
 not only the non-empty ones

---
 src/megatron/energon/wrappers/blend_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/wrappers/blend_dataset.py b/src/megatron/energon/wrappers/blend_dataset.py
index 2ab6d3a..2bbc8ed 100644
--- a/src/megatron/energon/wrappers/blend_dataset.py
+++ b/src/megatron/energon/wrappers/blend_dataset.py
@@ -78,10 +78,11 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     def __iter__(self) -> Iterator[T_sample]:
         assert self.worker_has_samples(), "Cannot blend all empty datasets"
-        datasets, weights = zip(
+        # The indices refer to all datasets, such that the restore keys do so as well
+        dataset_idxs, datasets, weights = zip(
             *[
-                (dataset, weight)
-                for dataset, weight in self.dataset_weights
+                (dataset_idx, dataset, weight)
+                for dataset_idx, (dataset, weight) in enumerate(self.dataset_weights)
                 if dataset.worker_has_samples()
             ]
         )
@@ -92,7 +93,7 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         while True:
             ds_idx = self._worker_rng.choice_idx(probs=probs)
             sample = next(dataset_iters[ds_idx])
-            yield add_sample_restore_key(sample, ds_idx, src=self)
+            yield add_sample_restore_key(sample, dataset_idxs[ds_idx], src=self)
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset, _weight in self.dataset_weights)
-- 
2.43.0


From d2fde556f34ba4ddf5d9129b896e6b585f288730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 15/51] fix: ShuffleBufferDataset restored while emptying its
 buffer does not restart the inner dataset

---
 .../energon/wrappers/shuffle_buffer_dataset.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
index c18594f..b5e1c39 100644
--- a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
+++ b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
@@ -25,12 +25,16 @@ T_sample = TypeVar("T_sample")
 class ShuffleBufferState(BaseSingleWrapperState):
     buffer: SampleBufferState
     rng: WorkerRngState
+    #: Whether the inner dataset is exhausted, i.e. only the buffer is left to be yielded
+    exhausted: bool = False
 
 
 @dataclass
 class ShuffleBufferMergedState(BaseSingleWrapperMergedState):
     buffer: SampleBufferMergedState
     rng: WorkerRngMergedState
+    #: For each worker, whether the inner dataset is exhausted. None means for no worker.
+    exhausted: Optional[List[bool]] = None
 
 
 class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sample]):
@@ -53,14 +57,16 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
         self.size = size
         self._worker_rng = WorkerRng(self.worker_config)
         self._active_buffer = SavableSampleBuffer(dataset, worker_config=worker_config)
+        self._exhausted = [False] * max(self.worker_config.num_workers, 1)
 
     def __len__(self) -> int:
         return len(self.dataset)
 
     def __iter__(self) -> Iterator[T_sample]:
+        worker_idx = self.worker_config.rank_worker_id()
         self._active_buffer.worker_start()
         it = iter(self._active_buffer.append_iter())
-        while True:
+        while not self._exhausted[worker_idx]:
             if len(self._active_buffer) >= self.size:
                 pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
                 yield self._active_buffer.pop(pop_idx)
@@ -68,16 +74,18 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
                 try:
                     next(it)
                 except StopIteration:
-                    break
+                    self._exhausted[worker_idx] = True
         while len(self._active_buffer) > 0:
             pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
             yield self._active_buffer.pop(pop_idx)
+        self._exhausted[worker_idx] = False
 
     def save_state(self) -> ShuffleBufferState:
         return ShuffleBufferState.extend(
             super().save_state(),
             rng=self._worker_rng.save_state(),
             buffer=self._active_buffer.save_state(),
+            exhausted=self._exhausted[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[Optional[ShuffleBufferState]]) -> ShuffleBufferMergedState:
@@ -88,6 +96,7 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
             buffer=self._active_buffer.merge_states(
                 [None if s is None else s.buffer for s in states]
             ),
+            exhausted=[False if s is None else s.exhausted for s in states],
         )
 
     def restore_state(self, state: Optional[ShuffleBufferMergedState]) -> None:
@@ -95,10 +104,15 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
         if state is None:
             self._active_buffer.restore_state(None)
             self._worker_rng.restore_state(None)
+            self._exhausted = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ShuffleBufferMergedState)
             self._active_buffer.restore_state(state.buffer)
             self._worker_rng.restore_state(state.rng)
+            if state.exhausted is None:
+                self._exhausted = [False] * max(self.worker_config.num_workers, 1)
+            else:
+                self._exhausted = list(state.exhausted)
 
     def restore_sample(self, index: Tuple[Union[str, int, tuple], ...]) -> T_sample:
         return self._active_buffer.restore_sample(index)
-- 
2.43.0


From f9df4d8d6c38f9443b2fd4afe142913149c44b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 16/51] fix: GroupBatchDataset restored while emptying its
 buckets does not restart the inner dataset

---
 .../energon/wrappers/group_batch_dataset.py      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 1117873..576d5e2 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -63,6 +63,8 @@ class GroupBatchState(BaseSingleWrapperState):
     bucket_sample_index: int
     batch_sample_index: int
     buckets: List[BucketState]
+    #: Whether the inner dataset is exhausted, i.e. only the buckets are left to be yielded
+    exhausted: bool = False
 
 
 @dataclass
@@ -70,6 +72,8 @@ class GroupBatchMergedState(BaseSingleWrapperMergedState):
     bucket_sample_index: List[int]
     batch_sample_index: List[int]
     buckets: List[List[BucketMergedState]]
+    #: For each worker, whether the inner dataset is exhausted. None means for no worker.
+    exhausted: Optional[List[bool]] = None
 
 
 @dataclass
@@ -134,6 +138,7 @@ class GroupBatchDataset(
         self._group_key_sample_index = SampleIndex(worker_config, src=self)
         self._batch_sample_index = SampleIndex(worker_config, src=self)
         self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
+        self._exhausted = [False] * max(self.worker_config.num_workers, 1)
         assert not inspect.isgeneratorfunction(
             batcher
         ), f"Batcher {batcher} must not be a generator function for grouped batching."
@@ -175,7 +180,7 @@ class GroupBatchDataset(
                 self.error_handler(e, batch_items)
 
         # Add samples to the buckets
-        for sample in self.dataset:
+        for sample in self.dataset if not self._exhausted[worker_idx] else ():
             try:
                 with self._group_key_sample_index.ctx():
                     bucket_key, batch_size = self.sample_group_key(sample)
@@ -205,6 +210,7 @@ class GroupBatchDataset(
             bucket.samples.append(sample)
             if len(bucket.samples) >= bucket.batch_size:
                 yield from flush(bucket)
+        self._exhausted[worker_idx] = True
         # Flush out last samples
         if not self.drop_last:
             for bucket in buckets.values():
@@ -212,6 +218,7 @@ class GroupBatchDataset(
                     yield from flush(bucket)
         # Clear the buckets
         self._buckets[worker_idx].clear()
+        self._exhausted[worker_idx] = False
 
     def save_state(self) -> GroupBatchState:
         rank = self.worker_config.rank_worker_id()
@@ -231,6 +238,7 @@ class GroupBatchDataset(
                 if self._buckets[rank] is not None
                 else []
             ),
+            exhausted=self._exhausted[rank],
         )
 
     def merge_states(self, states: List[Optional[GroupBatchState]]) -> GroupBatchMergedState:
@@ -244,6 +252,7 @@ class GroupBatchDataset(
                 [0 if s is None else s.batch_sample_index for s in states]
             ),
             buckets=[(state.buckets if state else []) for state in states],
+            exhausted=[False if s is None else s.exhausted for s in states],
         )
 
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
@@ -251,11 +260,16 @@ class GroupBatchDataset(
         if state is None:
             self._group_key_sample_index.restore_state(None)
             self._batch_sample_index.restore_state(None)
+            self._exhausted = [False] * max(self.worker_config.num_workers, 1)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
         else:
             assert isinstance(state, GroupBatchMergedState)
             self._group_key_sample_index.restore_state(state.bucket_sample_index)
             self._batch_sample_index.restore_state(state.batch_sample_index)
+            if state.exhausted is None:
+                self._exhausted = [False] * max(self.worker_config.num_workers, 1)
+            else:
+                self._exhausted = list(state.exhausted)
             for worker_idx, (buckets_state, buckets) in enumerate(
                 zip(state.buckets, self._buckets)
             ):
-- 
2.43.0


From e87a35de54f1272eb73684902398012e42067b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 17/51] fix: PackingDataset restored while yielding its last
 packs does not restart the inner dataset

---
 src/megatron/energon/wrappers/packing_dataset.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index d724ee5..68a68f9 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -46,6 +46,8 @@ class PackingState(BaseSingleWrapperState):
     pre_packing_lengths: List[int]
     pre_packing_index: int
     final_packing_index: int
+    #: Whether the inner dataset is exhausted, i.e. only the pending packs are left to be yielded
+    exhausted: bool = False
 
 
 @dataclass
@@ -55,6 +57,8 @@ class PackingMergedState(BaseSingleWrapperMergedState):
     pre_packing_lengths: List[List[int]]
     pre_packing_index: List[int]
     final_packing_index: List[int]
+    #: For each worker, whether the inner dataset is exhausted. None means for no worker.
+    exhausted: Optional[List[bool]] = None
 
 
 class PackingDataset(
@@ -134,6 +138,7 @@ class PackingDataset(
         self._reading_buffer = SavableSampleBuffer(dataset, worker_config=worker_config)
         self._pre_packing_buffer = SavableSampleBuffer(dataset, worker_config=worker_config)
         self._pre_packing_lengths = [[] for _ in range(max(worker_config.num_workers, 1))]
+        self._exhausted = [False] * max(self.worker_config.num_workers, 1)
         self._pre_packing_sample_index = SampleIndex(worker_config, src=self)
         self._final_packing_sample_index = SampleIndex(worker_config, src=self)
 
@@ -241,7 +246,7 @@ class PackingDataset(
                 self.error_handler(e, pack)
 
         # Main loop:
-        stopping = False
+        stopping = self._exhausted[worker_idx]
         while not stopping:
 
             pre_pack_round = 0
@@ -253,6 +258,7 @@ class PackingDataset(
                     if len(self._reading_buffer) > 0:
                         next_pre_pack()
                     stopping = True
+                    self._exhausted[worker_idx] = True
                     break
 
                 assert len(self._pre_packing_buffer) == 0
@@ -272,6 +278,7 @@ class PackingDataset(
         # Yield the remaining packs, flushing the collecting buffer
         while len(pre_packing_lengths) > 0:
             yield from next_final_pack()
+        self._exhausted[worker_idx] = False
 
     def save_state(self) -> PackingState:
         return PackingState.extend(
@@ -283,6 +290,7 @@ class PackingDataset(
             ),
             final_packing_index=self._final_packing_sample_index.save_state(),
             pre_packing_index=self._pre_packing_sample_index.save_state(),
+            exhausted=self._exhausted[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[PackingState]) -> PackingMergedState:
@@ -302,6 +310,7 @@ class PackingDataset(
             pre_packing_index=self._pre_packing_sample_index.merge_states(
                 [0 if state is None else state.pre_packing_index for state in states]
             ),
+            exhausted=[False if s is None else s.exhausted for s in states],
         )
 
     def restore_state(self, state: Optional[PackingMergedState]) -> None:
@@ -312,6 +321,7 @@ class PackingDataset(
             self._pre_packing_lengths = [[] for _ in range(max(self.worker_config.num_workers, 1))]
             self._pre_packing_sample_index.restore_state(None)
             self._final_packing_sample_index.restore_state(None)
+            self._exhausted = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
@@ -319,6 +329,10 @@ class PackingDataset(
             self._pre_packing_lengths = [list(lengths) for lengths in state.pre_packing_lengths]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
+            if state.exhausted is None:
+                self._exhausted = [False] * max(self.worker_config.num_workers, 1)
+            else:
+                self._exhausted = list(state.exhausted)
 
     def can_restore_sample(self) -> bool:
         # Cannot really verify if the returned elements contain a __restore_key__.
-- 
2.43.0


From d42e7f122a17057774c58c2a65aa4abefeb82984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 18/51] fix: BatchDataset restored after the last incomplete
 batch does not restart the inner dataset

---
 .../energon/wrappers/batch_dataset.py         | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 0a918ee..257d6f4 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -2,7 +2,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 import inspect
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import (
     Any,
     Callable,
@@ -37,23 +37,27 @@ T_batch_sample = TypeVar("T_batch_sample", covariant=True)
 @dataclass
 class BatchState(BaseSingleWrapperState):
     sample_index: int
+    #: Whether the inner dataset is exhausted, i.e. only the last batch is left to be yielded
+    exhausted: bool = False
 
 
 @dataclass
 class BatchMergedState(BaseSingleWrapperMergedState):
     sample_indexes: List[int]
+    #: For each worker, whether the inner dataset is exhausted. None means for no worker.
+    exhausted: Optional[List[bool]] = None
 
 
 @dataclass
 class BatchGeneratorState(BatchState):
-    generator_sample_key: Any
-    generator_offset: int
+    generator_sample_key: Any = None
+    generator_offset: int = 0
 
 
 @dataclass
 class BatchGeneratorMergedState(BatchMergedState):
-    generator_sample_keys: List[Any]
-    generator_offsets: List[int]
+    generator_sample_keys: List[Any] = field(default_factory=list)
+    generator_offsets: List[int] = field(default_factory=list)
 
 
 class BatchDataset(
@@ -107,6 +111,7 @@ class BatchDataset(
         self._sample_index = SampleIndex(worker_config, src=self)
         self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
         self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
+        self._exhausted = [False] * max(self.worker_config.num_workers, 1)
 
     def __len__(self):
         n_samples = len(self.dataset)
@@ -202,15 +207,17 @@ class BatchDataset(
                 self._reset_generator(worker_id)
                 self.error_handler(e, batch)
 
-        for sample in self.dataset:
+        for sample in self.dataset if not self._exhausted[worker_id] else ():
             batch.append(sample)
             sample_restore_keys.append(get_sample_restore_key(sample))
             if len(batch) == self.batch_size:
                 yield from flush()
                 batch = []
                 sample_restore_keys = []
+        self._exhausted[worker_id] = True
         if len(batch) > 0 and not self.drop_last:
             yield from flush()
+        self._exhausted[worker_id] = False
 
     def _reset_generator(self, worker_id: int) -> None:
         # There is no active generator (any more), do not resume it when restoring
@@ -221,6 +228,7 @@ class BatchDataset(
         state = BatchState.extend(
             super().save_state(),
             sample_index=self._sample_index.save_state(),
+            exhausted=self._exhausted[self.worker_config.rank_worker_id()],
         )
         if self._generator_offsets[self.worker_config.rank_worker_id()] is not None:
             state = BatchGeneratorState.extend(
@@ -239,6 +247,7 @@ class BatchDataset(
             sample_indexes=self._sample_index.merge_states(
                 [0 if state is None else state.sample_index for state in states]
             ),
+            exhausted=[False if s is None else s.exhausted for s in states],
         )
         if any(isinstance(s, BatchGeneratorState) for s in states):
             state = BatchGeneratorMergedState.extend(
@@ -258,11 +267,16 @@ class BatchDataset(
         super().restore_state(state)
         if state is None:
             self._sample_index.restore_state(None)
+            self._exhausted = [False] * max(self.worker_config.num_workers, 1)
             self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
             self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
+            if state.exhausted is None:
+                self._exhausted = [False] * max(self.worker_config.num_workers, 1)
+            else:
+                self._exhausted = list(state.exhausted)
             if isinstance(state, BatchGeneratorMergedState):
                 self._generator_sample_keys = list(state.generator_sample_keys)
                 self._generator_offsets = list(state.generator_offsets)
-- 
2.43.0


From e88a27a78e1667cc5b3385e146a7d6d9a3a4b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 19/51] fix: restore keys of IterMapDataset do not include
 samples of a failed iteration

---
 src/megatron/energon/wrappers/iter_map_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 00f3213..39651b4 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -139,6 +139,8 @@ class IterMapDataset(
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
             except Exception as e:
+                # The failed samples do not belong to the next yielded sample
+                sample_restore_keys.clear()
                 self.error_handler(e, last_sample_wrapper.last_sample)
             else:
                 break
-- 
2.43.0


From 3485448247f42fb67b101a452d354cb1526f7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 20/51] fix: RetryReadStream returns exactly the requested
 bytes after short reads and errors

---
 src/megatron/energon/retry_stream.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 0ca24d2..75edafd 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -35,13 +35,15 @@ class RetryReadStream(BinaryIO):
             self._file.close()
 
     def read(self, n: int = -1) -> bytes:
+        if n is None or n < 0:
+            n = -1
         buf = b""
         for retry in range(10):
             try:
                 if self._file is None:
                     self._file = self._path.open("rb")
                     self._file.seek(self._pos)
-                res = self._file.read(n)
+                res = self._file.read(n if n == -1 else n - len(buf))
                 self._pos += len(res)
                 buf += res
                 if (
@@ -49,16 +51,22 @@ class RetryReadStream(BinaryIO):
                     or len(buf) == n
                     or self._pos >= self._size
                 ):
-                    return res
+                    return buf
             except IOError:
-                try:
-                    self._file.close()
-                except IOError:
-                    pass
-                self._file = None
+                self._drop_file()
                 if retry == 9:
                     raise
                 continue
+        raise IOError(f"Could not read {n} bytes from {self._path}, only got {len(buf)} bytes")
+
+    def _drop_file(self) -> None:
+        """Closes the current file. It is opened again at the current position for the next read."""
+        try:
+            if self._file is not None:
+                self._file.close()
+        except IOError:
+            pass
+        self._file = None
 
     def seek(self, offset: int, whence: int = 0) -> int:
         if whence == 0:
@@ -75,7 +83,7 @@ class RetryReadStream(BinaryIO):
             if self._file is not None:
                 self._file.seek(offset)
         except IOError:
-            pass
+            self._drop_file()
         return self._pos
 
     def tell(self) -> int:
-- 
2.43.0


From 6ec8a313367f42090ea0d1ef8590d3fb2f5a7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 21/51] fix: SubFileReader.read with any negative size reads up
 to the end of the window

---
 src/megatron/energon/flavors/webdataset/itar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/itar.py b/src/megatron/energon/flavors/webdataset/itar.py
index 7a27eca..3f89f8d 100644
--- a/src/megatron/energon/flavors/webdataset/itar.py
+++ b/src/megatron/energon/flavors/webdataset/itar.py
@@ -75,7 +75,7 @@ class SubFileReader(BinaryIO):
         self.stream.seek(self.offset)
 
     def read(self, n: int = -1) -> bytes:
-        if n == -1:
+        if n is None or n < 0:
             n = self.size - self._pos
         else:
             n = min(n, self.size - self._pos)
-- 
2.43.0


From 0d62c15b8040a63a7fd172c961737759642119eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 22/51] fix: count excluded samples for the sample offsets of a
 shard

---
 .../energon/flavors/webdataset/single_shard_reader.py      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index 519ea42..aa66090 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -42,6 +42,8 @@ class SingleShardReader:
     _cur_base_name: Optional[str] = None
     _cur_ext: Optional[str] = None
     _cur_key: Optional[str] = None
+    # Key of the excluded sample which is currently being skipped
+    _skipped_key: Optional[str] = None
 
     def __init__(
         self,
@@ -139,7 +141,12 @@ class SingleShardReader:
 
             self._cur_key = f"{self.shard_state.shard.name}/{self._cur_base_name}"
             if self._cur_key in self.exclude:
+                if self._skipped_key != self._cur_key:
+                    # Excluded samples take part in the sample index, once for all their files
+                    self._skipped_key = self._cur_key
+                    self.shard_state.offset += 1
                 continue
+            self._skipped_key = None
             return
 
     def read_next(
-- 
2.43.0


From 9ba5fd38436a3071d9ee516aa33c016274fb5d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 23/51] fix: do not yield a joined sample if reading one of its
 columns failed

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index d42b04c..4f2441c 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -262,7 +262,10 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                             )
                         except Exception as e:
                             self.handler(e, reader.shard_state.shard.name)
-                    yield tuple(groups)
+                            # Do not pair the sample with the column of another sample
+                            break
+                    else:
+                        yield tuple(groups)
 
     def _shards_once(self, shards: List[Sequence[ShardInfo]]) -> List[Sequence[ShardInfo]]:
         """Possibly (re)shuffles the shards using the random generator."""
-- 
2.43.0


From 63f359f6ef211b0a0ecfd387dc72df3b93a81ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 24/51] fix: pass the keys of tuple samples to the error
 handler

---
 src/megatron/energon/flavors/webdataset/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/error_handler.py b/src/megatron/energon/flavors/webdataset/error_handler.py
index 857a282..84a4c3a 100644
--- a/src/megatron/energon/flavors/webdataset/error_handler.py
+++ b/src/megatron/energon/flavors/webdataset/error_handler.py
@@ -32,7 +32,7 @@ class ErrorHandler(Generic[T_sample]):
     ):
         if isinstance(sample, dict):
             key = sample.get("__key__")
-        elif isinstance(sample, list):
+        elif isinstance(sample, (list, tuple)) and len(sample) > 0:
             if isinstance(sample[0], dict):
                 key = ",".join("None" if s is None else s.get("__key__") for s in sample)
             elif isinstance(sample[0], Sample):
-- 
2.43.0


From af365a6ba2eb0aa14af81a49aad8e22c2fb85410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 25/51] fix: restore keys of joined samples are those of the
 sample loader

---
 .../energon/flavors/webdataset/joined_webdataset.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index 44ceb24..2e44fc6 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -234,12 +234,18 @@ class JoinedWebdatasetFactory(
             for dataset, sample in zip(self.inner_datasets, samples)
         )
         # Then combine the loaded smaples into the final type
-        return set_sample_restore_key(
+        joined_sample = set_sample_restore_key(
             self._sample_joiner(*loaded_samples),
             *restore_key,
             src=self,
             fail_otherwise=True,
         )
+        # The key is the one of the inner sample loader, which does not know about this class
+        if isinstance(joined_sample, dict):
+            joined_sample["__restore_key__"] = tuple(restore_key)
+        else:
+            joined_sample.__restore_key__ = tuple(restore_key)
+        return joined_sample
 
     def config(self) -> Dict[str, Any]:
         return dict(
-- 
2.43.0


From b94c1de47f53e88d5d967af67234c38c2f35b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 26/51] fix: shift worker ids in the right direction when
 restoring the next worker

---
 src/megatron/energon/worker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index ba5dc7c..d1f6aed 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -164,9 +164,7 @@ class WorkerConfig:
         if worker_info is None:
             return self.worker_id_offset
         assert worker_info.num_workers == self.num_workers
-        return (
-            worker_info.id + worker_info.num_workers - self.worker_id_offset
-        ) % worker_info.num_workers
+        return (worker_info.id + self.worker_id_offset) % worker_info.num_workers
 
     def assert_worker(self):
         """Checks if the current process is a worker (if configured so), and that the workers are
-- 
2.43.0


From 37b090ed4f6db642699736e3c538bbb87558e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 27/51] fix: unique global worker id for every rank if not
 using worker processes

---
 src/megatron/energon/worker.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index d1f6aed..da846a4 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -157,9 +157,9 @@ class WorkerConfig:
 
     def rank_worker_id(self) -> int:
         """Returns the self worker id within the current rank."""
-        if self._worker_override_global_rank:
+        if self._worker_override_global_rank is not None:
             assert self.worker_id_offset == 0
-            return self._worker_override_global_rank % self.num_workers
+            return self._worker_override_global_rank % max(self.num_workers, 1)
         worker_info = torch.utils.data.get_worker_info()
         if worker_info is None:
             return self.worker_id_offset
@@ -192,10 +192,10 @@ class WorkerConfig:
             return self._worker_override_global_rank
 
         if override_local_worker_id is not None:
-            return self.rank * self.num_workers + override_local_worker_id
+            return self.rank * max(self.num_workers, 1) + override_local_worker_id
         else:
             self.assert_worker()
-            return self.rank * self.num_workers + self.rank_worker_id()
+            return self.rank * max(self.num_workers, 1) + self.rank_worker_id()
 
     def worker_seed(self, override_local_worker_id: Optional[int] = None) -> int:
         """Returns the seed for the current worker (or a specified worker).
@@ -208,7 +208,7 @@ class WorkerConfig:
                 the current worker, which is the default.
         """
 
-        if self.num_workers == 0:
+        if self.num_workers == 0 and self._worker_override_global_rank is None:
             # If we are not using workers, different ranks should still get a different seed
             global_worker_id = self.rank
         else:
-- 
2.43.0


From ed9d715fe34bbf073b1070f47dc8e23e226988f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 28/51] fix: save and restore the sample index of loaders
 without worker processes

---
 src/megatron/energon/savable_loader.py | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ca21e48..ef1f98b 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -108,14 +108,33 @@ class SimpleSavableDatasetWrapper(SavableDataset[Tuple[int, int, T]], Generic[T]
                 if worker_active:
                     self.worker_config.worker_deactivate()
 
-    def save_state(self) -> State:
-        return self.dataset.save_state()
+    def save_state(self) -> SimpleSavableDatasetState:
+        return SimpleSavableDatasetState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.save_state(),
+            sample_index=self._sample_index[self.worker_config.rank_worker_id()],
+        )
 
-    def merge_states(self, states: List[State]) -> MergedState:
-        return self.dataset.merge_states(states)
+    def merge_states(
+        self, states: List[Optional[SimpleSavableDatasetState]]
+    ) -> SimpleSavableDatasetMergedState:
+        assert all(s is None or isinstance(s, SimpleSavableDatasetState) for s in states)
+        return SimpleSavableDatasetMergedState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.merge_states(
+                [None if s is None else s.dataset_state for s in states]
+            ),
+            sample_indexes=[0 if s is None else s.sample_index for s in states],
+        )
 
-    def restore_state(self, state: MergedState):
-        self.dataset.restore_state(state)
+    def restore_state(self, state: Optional[SimpleSavableDatasetMergedState]):
+        if state is None:
+            self.dataset.restore_state(None)
+            self._sample_index = [0] * max(self.worker_config.num_workers, 1)
+        else:
+            assert isinstance(state, SimpleSavableDatasetMergedState)
+            self.dataset.restore_state(state.dataset_state)
+            self._sample_index = list(state.sample_indexes)
         self._state_restored = True
 
     def can_restore_sample(self) -> bool:
-- 
2.43.0


From 708c8a424406cce84c8ded9fc7ba98f2b7d032c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 29/51] fix: do not skip the first sample of workers which have
 not yielded any sample before saving

---
 src/megatron/energon/savable_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ef1f98b..cd3b61d 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -693,7 +693,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     #: Instance of the current data iterator. There shall be only one active iterator, such that the
     # dataset is not iterated multiple times in parallel. The state will proceed.
     _persistent_iterator: Optional[Iterator[T]] = None
-    #: The index of the current worker
+    #: The index of the last sample yielded for each worker, -1 if there is none yet
     _worker_sample_counters: List[int]
     #: Id of the next worker to retrieve data from
     _next_worker_id: int = 0
@@ -750,7 +750,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             dataset = SimpleSavableDatasetWrapper(dataset, self.worker_config)
 
-        self._worker_sample_counters = [0] * max(self.worker_config.num_workers, 1)
+        self._worker_sample_counters = [-1] * max(self.worker_config.num_workers, 1)
 
         kwargs = {}
         if self.worker_config.num_workers > 0:
-- 
2.43.0


From 740d8ef283e76e2d6b3e867d89e05871e5da5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 30/51] fix: SavableDataLoader state can be saved right after
 restoring it

---
 src/megatron/energon/savable_loader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index cd3b61d..0cb3df3 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -697,6 +697,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     _worker_sample_counters: List[int]
     #: Id of the next worker to retrieve data from
     _next_worker_id: int = 0
+    #: The last restored state, until the workers are started
+    _restored_state: Optional["SavableDataLoaderState"] = None
     #: Global index of the last yielded sample
     _global_sample_idx: int = 0
     #: Current iterator index of the last yielded sample
@@ -911,8 +913,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert self._next_worker_id == 0
             merged_states = self.dataset.merge_states(worker_states)
         elif self._persistent_iterator is None:
-            # Workers configured, but not started yet -> Initial state
-            return None
+            # Workers configured, but not started yet -> Initial (or restored) state
+            return self._restored_state
         else:
             # Fetch from worker processes
             worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
@@ -946,6 +948,15 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert isinstance(self.dataset, SavableDatasetWrapper)
             assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
             self.dataset.restore_checkpoint(state.dataset_state, worker_offset=state.next_worker_id)
+            # The workers continue after the samples yielded before the state was saved
+            self._worker_sample_counters = [
+                sample_index + offset - 1
+                for sample_index, offset in zip(
+                    state.dataset_state.state.sample_index, state.dataset_state.offset
+                )
+            ]
+            self._next_worker_id = state.next_worker_id
+            self._restored_state = state
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
-- 
2.43.0


From 3794208dd95d1fec285badefd863c7ea8357da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 31/51] fix: keep a checkpoint from before the prefetched
 samples at the end of a pass

---
 src/megatron/energon/savable_loader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 0cb3df3..972c195 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -472,7 +472,13 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     sample_index=self._sample_index,
                 )
             )
-            if len(self._last_checkpoints) > self.n_checkpoints:
+            # Samples which were yielded here may not have been retrieved by the loader yet. Thus keep
+            # at least one checkpoint which is old enough, even after the final checkpoint of a pass.
+            while (
+                len(self._last_checkpoints) > self.n_checkpoints
+                and self._last_checkpoints[1].sample_index + self.checkpoint_every_min_n_samples
+                <= self._sample_index
+            ):
                 self._last_checkpoints.pop(0)
 
     def _save_state(self) -> SavableDatasetState:
-- 
2.43.0


From 138687474ef6873c6ba7508aa8582f67138877c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 32/51] fix: seed workers without a saved state by their own
 worker id when restoring

---
 src/megatron/energon/savable_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 972c195..42608f8 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -511,7 +511,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
         """Restores the internal worker state"""
         assert torch.utils.data.get_worker_info() is not None, "Can only restore in worker process"
         if state.torch_rng[self._worker_id] is None:
-            torch.manual_seed(torch.initial_seed())
+            torch.manual_seed(self.worker_config.worker_seed())
         else:
             torch.set_rng_state(
                 torch.frombuffer(
@@ -519,12 +519,12 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                 ).clone()
             )
         if state.numpy_rng[self._worker_id] is None:
-            np.random.seed(torch.initial_seed() & 0xFFFFFFFF)
+            np.random.seed(self.worker_config.worker_seed())
         else:
             np_tp, np_state, *np_rng = state.numpy_rng[self._worker_id]
             np.random.set_state((np_tp, np.frombuffer(np_state, dtype=np.uint32), *np_rng))
         if state.rng[self._worker_id] is None:
-            random.seed(torch.initial_seed() & 0xFFFFFFFF)
+            random.seed(self.worker_config.worker_seed())
         else:
             random.setstate(state.rng[self._worker_id])
         self._sample_index = state.sample_index[self._worker_id]
-- 
2.43.0


From fae05e599766959b377067f6c8a46246022e11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 33/51] fix: save the worker the next pass starts with at the
 end of a pass

---
 src/megatron/energon/savable_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 42608f8..6bab8d2 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -866,7 +866,10 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                     return sample
                 except StopIteration:
                     self.finished = True
-                    outerself._next_worker_id = 0
+                    # The next pass starts with the worker the first process was shifted to
+                    outerself._next_worker_id = (
+                        outerself.dataset._worker_offset if outerself.num_workers > 0 else 0
+                    )
                     if outerself.worker_config.should_log(level=1):
                         outerself.worker_config.worker_log(
                             {
-- 
2.43.0


From 9b77f16b40d6ea4fd30a93e29dfb6ea7d8633ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 34/51] fix: seed stateless functions from the active worker,
 not from the first one in the process

---
 src/megatron/energon/task_encoder/base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index d0b8fb8..4637a87 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -133,13 +133,11 @@ def stateless(
     if fn is None:
         return lambda f: stateless(f, restore_seeds=restore_seeds)
     if restore_seeds:
-        worker_seed = None
 
         @functools.wraps(fn)
         def seed_wrapper_generator(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            # The seed is specific to the active worker, which changes when restoring samples
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             outer_rng_state = SystemRng.save_state()
@@ -185,9 +183,8 @@ def stateless(
 
         @functools.wraps(fn)
         def seed_wrapper(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            # The seed is specific to the active worker, which changes when restoring samples
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             rng_state = SystemRng.save_state()
-- 
2.43.0


From abeccc15b058bf40135014643831f8ede31869d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 35/51] fix: grouped batches of a stateless batch function can
 be restored

---
 src/megatron/energon/task_encoder/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index 4637a87..0bc6487 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -398,6 +398,7 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 fixed_batch_size=batch_size,
                 sample_group_key=self.batch_group_criterion,
                 batcher=self.batch,
+                batcher_stateless=get_stateless(self.batch),
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
-- 
2.43.0


From d448a0cad232f1704317b8342a70d16e9f34b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 36/51] fix: apply encode_batch to grouped batches

---
 src/megatron/energon/task_encoder/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index 0bc6487..5fb94b6 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -402,6 +402,14 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
+
+            if getattr(self.encode_batch, "__func__", None) is not TaskEncoder.encode_batch:
+                dataset = MapDataset(
+                    dataset,
+                    self.encode_batch,
+                    worker_config=worker_config,
+                    stateless_map_fn=get_stateless(self.encode_batch),
+                )
         else:
             # No grouping is active
 
-- 
2.43.0


From 5eacf18ac56e6bbd928d0eaf7153e512e2589033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 37/51] fix: apply the shuffle_over_epochs_multiplier of joined
 datasets in a metadataset

---
 src/megatron/energon/metadataset/metadataset_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index c89800f..05cd287 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -161,7 +161,8 @@ class MetadatasetJoin(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
+            * self.shuffle_over_epochs_multiplier,
             **kwargs,
         )
 
-- 
2.43.0


From 92a719297d1c9e99df0bf544e19a7a586dea7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 38/51] fix: joined datasets in a metadataset may have their
 own split_config

---
 src/megatron/energon/metadataset/metadataset_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 05cd287..29ed760 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -116,7 +116,8 @@ class MetadatasetJoin(DatasetLoaderInterface):
     subflavors: Optional[Dict[str, Any]] = None
     shuffle_over_epochs_multiplier: int = 1
     dataset_config: str = "dataset.yaml"
-    split_config: str = "split.yaml"
+    #: If set, overrides the split config of all joined datasets
+    split_config: Optional[str] = None
 
     _dataset: Optional[DatasetLoaderInterface] = None
 
-- 
2.43.0


From 95669dc2d129f63b75650cca665b775d65c555fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 39/51] fix: nested shuffle_over_epochs_multipliers of -1 stay
 infinite

---
 .../energon/metadataset/loader_interface.py       |  7 +++++++
 src/megatron/energon/metadataset/metadataset.py   | 10 +++++++---
 .../energon/metadataset/metadataset_v2.py         | 15 ++++++++++-----
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/megatron/energon/metadataset/loader_interface.py b/src/megatron/energon/metadataset/loader_interface.py
index 79984a7..0f6b550 100644
--- a/src/megatron/energon/metadataset/loader_interface.py
+++ b/src/megatron/energon/metadataset/loader_interface.py
@@ -8,6 +8,13 @@ from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.worker import WorkerConfig
 
 
+def multiply_shuffle_over_epochs(outer: int, inner: int) -> int:
+    """Multiplies two shuffle over epochs multipliers, where -1 stands for infinitely many epochs."""
+    if outer == -1 or inner == -1:
+        return -1
+    return outer * inner
+
+
 class DatasetLoaderInterface(ABC):
     """General interface for a dataset loader."""
 
diff --git a/src/megatron/energon/metadataset/metadataset.py b/src/megatron/energon/metadataset/metadataset.py
index 2bc82d4..0120b34 100644
--- a/src/megatron/energon/metadataset/metadataset.py
+++ b/src/megatron/energon/metadataset/metadataset.py
@@ -9,7 +9,10 @@ from megatron.energon.epathlib import EPath
 from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    multiply_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference:
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 29ed760..f74558a 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -10,7 +10,10 @@ from megatron.energon.flavors import BaseCoreDatasetFactory, Sample
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
 from megatron.energon.metadataset.join_dataset_loader import JoinDatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    multiply_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
@@ -162,8 +166,9 @@ class MetadatasetJoin(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
-- 
2.43.0


From 70f3077d6e9f7ae3ef5016c9167c3bfcc93e0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 40/51] fix: raw_to_typed returns a tuple for tuple types of
 fixed length

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index d0c01db..8a8b705 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -454,12 +454,12 @@ def raw_to_typed(  # noqa: C901
                     _path,
                     _stage,
                 )
-            return [
+            return tuple(
                 raw_to_typed(
                     val, inner_type, strict, allow_imports, f"{_path} -> {idx}", _stage + (idx,)
                 )
                 for idx, (val, inner_type) in enumerate(zip(raw_data, inner_types))
-            ]
+            )
     elif typing.get_origin(inst_type) is dict:
         # Dict[str, value_type]
         key_type, value_type = typing.get_args(inst_type)
-- 
2.43.0


From 7fd46038f2a7f52ecb0f0807b6b40c4c22047088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 41/51] fix: safe_call_function passes the arguments of a list
 in order

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 8a8b705..98afb5f 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -591,7 +591,7 @@ def safe_call_function(
                     )
                 args.append(
                     raw_to_typed(
-                        unused_args.pop(), t, strict, allow_imports, _path=key, _stage=(idx,)
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
                     )
                 )
             elif param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
@@ -600,7 +600,7 @@ def safe_call_function(
                 if len(unused_args) == 0:
                     arg_val = param.default
                 else:
-                    arg_val = unused_args.pop()
+                    arg_val = unused_args.pop(0)
                 args.append(
                     raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
                 )
-- 
2.43.0


From e073e3fc7ae0e784a6236eadc544e97a738148a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 42/51] fix: overriding with "False" gives False if the type is
 Any

---
 src/megatron/energon/typed_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 98afb5f..addb773 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -753,7 +753,7 @@ def override(  # noqa: C901
             elif overrides == "True":
                 return True
             elif overrides == "False":
-                return True
+                return False
             return overrides
         if isinstance(value, (dict, list, tuple)):
             # Merge with dict, list, str
-- 
2.43.0


From 18dbed878dc018d74be2008351fa597b36fb03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 43/51] fix: override items of dicts

---
 src/megatron/energon/typed_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index addb773..a48d469 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -1073,7 +1073,7 @@ def override(  # noqa: C901
                 if key in local_overrides
                 else subvalue
             )
-            for idx, (key, subvalue) in value.items()
+            for idx, (key, subvalue) in enumerate(value.items())
         }
         for key, val in local_overrides.items():
             if not isinstance(val, str):
-- 
2.43.0


From b2c8e63af5eb20435c8cfadb635553832f12e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 44/51] fix: check values against generic types by the
 arguments of the type

---
 src/megatron/energon/typed_converter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index a48d469..55f3961 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -654,13 +654,12 @@ def _isinstance_deep(val: Any, tp_chk: Type) -> bool:
     if tp_chk is Any:
         return True
     elif typing.get_origin(tp_chk) is Literal:
-        (value,) = typing.get_args(val)
-        return val == value
+        return val in typing.get_args(tp_chk)
     elif typing.get_origin(tp_chk) is list:
-        (inner_type,) = typing.get_args(val)
+        (inner_type,) = typing.get_args(tp_chk)
         return isinstance(val, list) and all(_isinstance_deep(v, inner_type) for v in val)
     elif typing.get_origin(tp_chk) is tuple:
-        inner_types = typing.get_args(val)
+        inner_types = typing.get_args(tp_chk)
         if len(inner_types) == 2 and inner_types[1] == Ellipsis:
             return isinstance(val, tuple) and all(_isinstance_deep(v, inner_types[0]) for v in val)
         else:
@@ -670,7 +669,7 @@ def _isinstance_deep(val: Any, tp_chk: Type) -> bool:
                 and all(_isinstance_deep(v, inner_type) for v, inner_type in zip(val, inner_types))
             )
     elif typing.get_origin(tp_chk) is dict:
-        key_type, value_type = typing.get_args(val)
+        key_type, value_type = typing.get_args(tp_chk)
         return isinstance(val, dict) and all(
             _isinstance_deep(k, key_type) and _isinstance_deep(v, value_type)
             for k, v in val.items()
-- 
2.43.0


From c5fbc555610042abd198c87a91b6e2ed3889362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 45/51] fix: import dataclasses with default factories

---
 src/megatron/energon/typed_converter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 55f3961..4309cb2 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -556,6 +556,9 @@ def safe_call_function(
             ):
                 if param.default is inspect.Parameter.empty and key not in unused_args:
                     raise ValueError(f"Missing required argument {key!r} for {fn}")
+                if key not in unused_args and dataclasses.is_dataclass(fn):
+                    # The default may be a default factory, which only the dataclass can call
+                    continue
                 kwargs[key] = raw_to_typed(
                     unused_args.pop(key, param.default),
                     t,
@@ -597,6 +600,9 @@ def safe_call_function(
             elif param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
                 if param.default is inspect.Parameter.empty and len(unused_args) == 0:
                     raise ValueError(f"Missing required positional argument {key!r} at index {idx}")
+                if len(unused_args) == 0 and dataclasses.is_dataclass(fn):
+                    # The default may be a default factory, which only the dataclass can call
+                    continue
                 if len(unused_args) == 0:
                     arg_val = param.default
                 else:
-- 
2.43.0


From f765dd752d715eb8c9c437ad71a8e88bd0aa8bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 46/51] fix: parent and joins of remote paths do not leave the
 remote

---
 src/megatron/energon/epathlib/epath.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 873c928..4bd1492 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -64,7 +64,7 @@ class EPath:
                     # The first part of the path will be the rclone remote name
                     path = "/" + path
 
-                self.internal_path = self._resolve(path)
+                self.internal_path = self._resolve(path, 2)
 
                 remote_name = self.internal_path.parts[1]
                 self.fs, self.s3_args = self.create_s3fs_from_rclone_remote(
@@ -76,8 +76,9 @@ class EPath:
                 raise ValueError(f"Unknown protocol: {protocol}")
 
     @staticmethod
-    def _resolve(path: Union[str, PurePosixPath]) -> PurePosixPath:
-        """Resolve a path, removing .. and . components."""
+    def _resolve(path: Union[str, PurePosixPath], num_fs_path_parts: int = 0) -> PurePosixPath:
+        """Resolve a path, removing .. and . components. The first `num_fs_path_parts` parts belong
+        to the file system specification and cannot be removed by .. components."""
         if isinstance(path, str):
             path = PurePosixPath(path)
         parts = path.parts
@@ -87,7 +88,7 @@ class EPath:
             new_parts = []
             for part in parts[1:]:
                 if part == "..":
-                    if len(new_parts) == 0:
+                    if len(new_parts) <= max(num_fs_path_parts - 1, 0):
                         raise ValueError(f"Path above root: {path}")
                     new_parts.pop()
                 elif path == ".":
@@ -197,7 +198,8 @@ class EPath:
     @property
     def parent(self):
         new_path = EPath(self)
-        new_path.internal_path = self.internal_path.parent
+        if len(self.internal_path.parts) > self.num_fs_path_parts:
+            new_path.internal_path = self.internal_path.parent
         return new_path
 
     @property
@@ -325,7 +327,8 @@ class EPath:
 
         new_path = EPath(self)
         new_path.internal_path = self._resolve(
-            self.internal_path / (other if isinstance(other, str) else other.internal_path)
+            self.internal_path / (other if isinstance(other, str) else other.internal_path),
+            self.num_fs_path_parts,
         )
         return new_path
 
-- 
2.43.0


From 81ddcc55b844e9a37e7aed6faa0c6717e8e4e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 47/51] fix: no shard is lost by rounding when splitting by
 ratios

---
 .../energon/flavors/webdataset/prepare.py         | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index c72776d..5cb73b8 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 import functools
+import itertools
 import logging
 import multiprocessing as mp
 import random
@@ -221,21 +222,15 @@ class WebdatasetPreparator:
             yaml.dump(to_json_object(info), wf)
 
         if split_parts_ratio is not None:
-            # Normalize ratio
-            total_ratio = sum(split_ratio for _, split_ratio in split_parts_ratio)
-            split_parts_ratio = [
-                (split_part, split_ratio / total_ratio)
-                for split_part, split_ratio in split_parts_ratio
-            ]
             # Sample from shards based on the split ratio from split parts
             split_shards = {}
             if shuffle_seed is not None:
                 random.Random(shuffle_seed).shuffle(shards)
-            split_total = 0
+            # Accumulate the ratios before normalizing, such that the last total is exactly 1
+            split_totals = list(itertools.accumulate(ratio for _, ratio in split_parts_ratio))
             split_offset = 0
-            for split_part, split_ratio in split_parts_ratio:
-                split_total += split_ratio
-                split_end = int(len(shards) * split_total)
+            for (split_part, _), split_total in zip(split_parts_ratio, split_totals):
+                split_end = int(len(shards) * (split_total / split_totals[-1]))
                 split_shards[split_part] = [shard.name for shard in shards[split_offset:split_end]]
                 split_offset = split_end
         else:
-- 
2.43.0


From 9f9038826c39e5ba6e74df4cdd4116b80dbd0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 48/51] fix: size of images rotated by multiples of 90 degrees
 with expand

---
 src/megatron/energon/transforms/mappers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 230218b..898d8f9 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -249,7 +249,11 @@ class RandomRotationMapper(TransformMapper[T.RandomRotation]):
         rads = degrees * np.pi / 180
         # print(f"Rotate deg={degrees}")
         orig_size = dst_size
-        if self.transform.expand:
+        if self.transform.expand and degrees % 90 == 0:
+            # Rotation by a multiple of 90 degrees, the size is exact
+            if degrees % 180 != 0:
+                dst_size = np.array([orig_size[1], orig_size[0]], dtype=dst_size.dtype)
+        elif self.transform.expand:
             # Compute size of rotated rectangle
             w = np.abs(np.sin(rads)) * dst_size[0] + np.abs(np.cos(rads)) * dst_size[1]
             h = np.abs(np.sin(rads)) * dst_size[1] + np.abs(np.cos(rads)) * dst_size[0]
-- 
2.43.0


From e08ec649fb949ff5b0e4b83d2d8d8eb24415b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 49/51] fix: support the padding of RandomCrop

---
 src/megatron/energon/transforms/mappers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 898d8f9..c87b343 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -292,6 +292,18 @@ class RandomCropMapper(TransformMapper[T.RandomCrop]):
     ) -> Tuple[np.ndarray, np.ndarray, Any]:
         th, tw = self.transform.size  # Target height and width
 
+        # explicit padding before cropping
+        if self.transform.padding is not None:
+            padding = self.transform.padding
+            if isinstance(padding, numbers.Number):
+                padding = [padding]
+            # left, top, right, bottom
+            padding = (list(padding) * 4)[:4]
+            matrix = self.translate(padding[0], padding[1]) @ matrix
+            dst_size = dst_size + np.array(
+                (padding[1] + padding[3], padding[0] + padding[2]), dtype=dst_size.dtype
+            )
+
         # pad the width if needed
         if self.transform.pad_if_needed and dst_size[1] < tw:
             padding = tw - dst_size[1]  # Pad this much on both left and right
-- 
2.43.0


From dbea935bb85824ef28980f7eda1dc2804ce4b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 50/51] fix: center crops larger than the image pad in the same
 way as torchvision

---
 src/megatron/energon/transforms/mappers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index c87b343..1fe7b19 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -418,8 +418,15 @@ class CenterCropMapper(TransformMapper[T.CenterCrop]):
         else:
             th, tw = self.transform.size
 
-        shift_y = round(float(th - dst_size[0]) / 2)
-        shift_x = round(float(tw - dst_size[1]) / 2)
+        # Round in the same way as torchvision does: padding is rounded down, cropping to even
+        if th > dst_size[0]:
+            shift_y = int(th - dst_size[0]) // 2
+        else:
+            shift_y = round(float(th - dst_size[0]) / 2)
+        if tw > dst_size[1]:
+            shift_x = int(tw - dst_size[1]) // 2
+        else:
+            shift_x = round(float(tw - dst_size[1]) / 2)
 
         matrix = self.translate(shift_x, shift_y) @ matrix
         dst_size = np.array((th, tw), dtype=dst_size.dtype)
-- 
2.43.0


From d81fd592d89ba5e01a81b4f707a02f0094b828b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 51/51] fix: perspective transforms of tensors map the pixel
 centers

---
 src/megatron/energon/transforms/merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/transforms/merge.py b/src/megatron/energon/transforms/merge.py
index 749b79d..9f4b41b 100644
--- a/src/megatron/energon/transforms/merge.py
+++ b/src/megatron/energon/transforms/merge.py
@@ -137,8 +137,9 @@ class MergeTransform(torch.nn.Module):
                     torch.Size((1, 3, *dst_size)),
                 )
             else:
-                xs = torch.linspace(-1, 1, dst_size[1], dtype=torch.float32)
-                ys = torch.linspace(-1, 1, dst_size[0], dtype=torch.float32)
+                # Pixel centers, corresponding to align_corners=False
+                xs = (torch.arange(dst_size[1], dtype=torch.float32) * 2 + 1) / dst_size[1] - 1
+                ys = (torch.arange(dst_size[0], dtype=torch.float32) * 2 + 1) / dst_size[0] - 1
                 zs = torch.ones((1,), dtype=torch.float32)
                 # shape: (2<x,y,1>, W, H)
                 grid = torch.stack(torch.meshgrid([xs, ys, zs], indexing="ij"))[..., 0]
-- 
2.43.0

