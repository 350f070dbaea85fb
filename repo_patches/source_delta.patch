From 3a08018703dd79410410d3dc3405607a00be15c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 001/102] fix: indexing a prioritized buffer with a list raised
 TypeError

---
 tianshou/data/buffer/prio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index ac0220f..f49b51c 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -99,7 +99,8 @@ class PrioritizedReplayBuffer(ReplayBuffer):
                 else self._indices[: len(self)][index]
             )
         else:
-            indices = cast(np.ndarray, index)
+            # a list has to be converted, as the segment tree does arithmetic on the indices
+            indices = np.array(index) if isinstance(index, list) else cast(np.ndarray, index)
         batch = super().__getitem__(indices)
         weight = self.get_weight(indices)
         # ref: https://github.com/Kaixhin/Rainbow/blob/master/memory.py L154
-- 
2.43.0


From 92e319cecaa93c2f1515fc714b81f0c6410ec0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 002/102] fix: unfinished_index() of a buffer that never held
 data raised AttributeError

---
 tianshou/data/buffer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 5c4451d..5810428 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -302,7 +302,7 @@ class ReplayBuffer:
     def unfinished_index(self) -> np.ndarray:
         """Return the index of unfinished episode."""
         last = (self._insertion_idx - 1) % self._size if self._size else 0
-        return np.array([last] if not self.done[last] and self._size else [], int)
+        return np.array([last] if self._size and not self.done[last] else [], int)
 
     def prev(self, index: int | np.ndarray) -> np.ndarray:
         """Return the index of previous transition.
-- 
2.43.0


From 611fea96b19482cb28726d2553a6f2203e488708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:24 +0000
Subject: [PATCH 003/102] fix: sample_indices(None) drew with replacement (or
 not at all in random order); sampling from an empty buffer raised instead of
 returning no index

---
 tianshou/data/buffer/base.py    |  6 ++++--
 tianshou/data/buffer/manager.py | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 5810428..0fd92bd 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -496,7 +496,9 @@ class ReplayBuffer:
             random order).
         """
         if batch_size is None:
-            batch_size = len(self)
+            return np.random.permutation(ReplayBuffer.sample_indices(self, 0))
+        if self._size == 0:
+            return np.array([], int)
         if self.stack_num == 1 or not self._sample_avail:  # most often case
             if batch_size > 0:
                 return np.random.choice(self._size, batch_size)
@@ -519,7 +521,7 @@ class ReplayBuffer:
         for _ in range(self.stack_num - 2):
             prev_indices = self.prev(prev_indices)
         all_indices = all_indices[prev_indices != self.prev(prev_indices)]
-        if batch_size > 0:
+        if batch_size > 0 and len(all_indices) > 0:
             return np.random.choice(all_indices, batch_size)
         return all_indices
 
diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index e8176aa..2a1845f 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -197,6 +197,10 @@ class ReplayBufferManager(ReplayBuffer):
         if batch_size is not None and batch_size < 0:
             # TODO: raise error instead?
             return np.array([], int)
+        if batch_size is None:
+            return np.random.permutation(ReplayBufferManager.sample_indices(self, 0))
+        if len(self) == 0:
+            return np.array([], int)
         if self._sample_avail and self.stack_num > 1:
             all_indices = np.concatenate(
                 [
@@ -204,12 +208,10 @@ class ReplayBufferManager(ReplayBuffer):
                     for offset, buf in zip(self._offset, self.buffers, strict=True)
                 ],
             )
-            if batch_size == 0:
+            if batch_size == 0 or len(all_indices) == 0:
                 return all_indices
-            if batch_size is None:
-                batch_size = len(all_indices)
             return np.random.choice(all_indices, batch_size)
-        if batch_size == 0 or batch_size is None:  # get all available indices
+        if batch_size == 0:  # get all available indices
             sample_num = np.zeros(self.buffer_num, int)
         else:
             buffer_idx = np.random.choice(
-- 
2.43.0


From 591530e84206657d096f8318dfda0930f9eb443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 004/102] fix: a prioritized buffer kept the priorities of
 cleared slots after reset() and wrote out of bounds when updated from an
 empty buffer

---
 tianshou/data/buffer/prio.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index f49b51c..f8e444b 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -43,12 +43,19 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         self.options.update(alpha=alpha, beta=beta)
         self._weight_norm = weight_norm
 
+    def reset(self, keep_statistics: bool = False) -> None:
+        super().reset(keep_statistics)
+        # the sub-buffers of a PrioritizedReplayBufferManager have no weight of their own
+        if "weight" in self.__dict__:
+            self.weight = SegmentTree(self.maxsize)
+
     def init_weight(self, index: int | np.ndarray) -> None:
         self.weight[index] = self._max_prio**self._alpha
 
     def update(self, buffer: ReplayBuffer) -> np.ndarray:
         indices = super().update(buffer)
-        self.init_weight(indices)
+        if len(indices) > 0:
+            self.init_weight(indices)
         return indices
 
     def add(
-- 
2.43.0


From 189e4fcfef5235cc8aa7116ef25bf77c0025caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 005/102] fix: a buffer built by from_data() did not know its
 newest transition, so prev/next treated slot 0 as the newest

---
 tianshou/data/buffer/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 0fd92bd..ef11694 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -280,6 +280,7 @@ class ReplayBuffer:
         batch = cast(RolloutBatchProtocol, batch)
         buf.set_batch(batch)
         buf._size = size
+        buf.last_index[0] = size - 1
         return buf
 
     def reset(self, keep_statistics: bool = False) -> None:
-- 
2.43.0


From 361044d43369924e3ad1517c488df5f4357eb989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:43 +0000
Subject: [PATCH 006/102] fix: sub-buffers of a pickled, deep-copied or
 HDF5-loaded vectorized/cached buffer did not follow later additions

---
 tianshou/data/buffer/cached.py  | 8 ++++++++
 tianshou/data/buffer/manager.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/cached.py b/tianshou/data/buffer/cached.py
index 6c7a6e1..ca3b15f 100644
--- a/tianshou/data/buffer/cached.py
+++ b/tianshou/data/buffer/cached.py
@@ -1,3 +1,5 @@
+from typing import Any
+
 import numpy as np
 
 from tianshou.data import ReplayBuffer, ReplayBufferManager
@@ -43,6 +45,12 @@ class CachedReplayBuffer(ReplayBufferManager):
         self.cached_buffers = self.buffers[1:]
         self.cached_buffer_num = cached_buffer_num
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # serialization may not preserve the identity of these with the elements of self.buffers
+        self.main_buffer = self.buffers[0]
+        self.cached_buffers = self.buffers[1:]
+
     def add(
         self,
         batch: RolloutBatchProtocol,
diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index 2a1845f..d9790ea 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -1,5 +1,5 @@
 from collections.abc import Sequence
-from typing import Union, cast
+from typing import Any, Union, cast
 
 import numpy as np
 from numba import njit
@@ -57,6 +57,13 @@ class ReplayBufferManager(ReplayBuffer):
     def subbuffer_edges(self) -> np.ndarray:
         return self._extend_offset
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # the sub-buffers' storage are views of the manager's storage, which serialization turns into copies
+        if len(self._meta.get_keys()) > 0:
+            for offset, buf in zip(self._offset, self.buffers, strict=True):
+                buf._meta = self._meta[offset : offset + buf.maxsize]
+
     def _compile(self) -> None:
         lens = last = index = np.array([0])
         offset = np.array([0, 1])
-- 
2.43.0


From ff659be55bcd9f0003a2cc613883e6e8f26b3b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:43 +0000
Subject: [PATCH 007/102] fix: after update() the next episode's start index
 was reported as the slot of the first moved transition

---
 tianshou/data/buffer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index ef11694..84a577e 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -344,6 +344,8 @@ class ReplayBuffer:
         if len(self._meta.get_keys()) == 0:
             self._meta = create_value(buffer._meta, self.maxsize, stack=False)  # type: ignore
         self._meta[updated_indices] = buffer._meta[from_indices]
+        if self._ep_len == 0:  # no episode is open, the next one starts after the moved data
+            self._ep_start_idx = self._insertion_idx
         return updated_indices
 
     def _update_state_pre_add(
-- 
2.43.0


From 9fd7b885617db29ef8e58b013cb62b4bda0ecd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 008/102] fix: update() from a vectorized buffer with
 sample_avail dropped transitions without a full frame stack

---
 tianshou/data/buffer/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 84a577e..6477d81 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -329,9 +329,14 @@ class ReplayBuffer:
         """
         if len(buffer) == 0 or self.maxsize == 0:
             return np.array([], int)
-        stack_num, buffer.stack_num = buffer.stack_num, 1
-        from_indices = buffer.sample_indices(0)  # get all available indices
-        buffer.stack_num = stack_num
+        # get all available indices, irrespective of frame stacking (also in sub-buffers)
+        buffers = [buffer, *getattr(buffer, "buffers", [])]
+        stack_nums = [buf.stack_num for buf in buffers]
+        for buf in buffers:
+            buf.stack_num = 1
+        from_indices = buffer.sample_indices(0)
+        for buf, stack_num in zip(buffers, stack_nums, strict=True):
+            buf.stack_num = stack_num
         if len(from_indices) == 0:
             return np.array([], int)
         updated_indices = []
-- 
2.43.0


From 9a7a1d48dfab3166428e011d4e1b2802cb6a2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 009/102] fix: strings in numpy object arrays came back as
 bytes from HDF5

---
 tianshou/data/utils/converter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/data/utils/converter.py b/tianshou/data/utils/converter.py
index acda782..b93a78f 100644
--- a/tianshou/data/utils/converter.py
+++ b/tianshou/data/utils/converter.py
@@ -153,6 +153,10 @@ def from_hdf5(x: h5py.Group, device: str | None = None) -> Hdf5ConvertibleValues
     if isinstance(x, h5py.Dataset):
         # handle datasets
         if x.attrs["__data_type__"] == "ndarray":
+            string_info = h5py.check_string_dtype(x.dtype)
+            if string_info is not None and string_info.encoding == "utf-8":
+                # h5py writes object arrays of str as such, but reads them as bytes by default
+                return np.array(x.asstr()[()], dtype=object)
             return np.array(x)
         if x.attrs["__data_type__"] == "Tensor":
             return torch.tensor(x, device=device)
-- 
2.43.0


From 550bd434694ec335f2fd91c6df449714ef2e666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 010/102] fix: PrioritizedVectorReplayBuffer ignored
 weight_norm=False

---
 tianshou/data/buffer/prio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index f8e444b..69ee703 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -40,7 +40,7 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         # save weight directly in this class instead of self._meta
         self.weight = SegmentTree(size)
         self.__eps = np.finfo(np.float32).eps.item()
-        self.options.update(alpha=alpha, beta=beta)
+        self.options.update(alpha=alpha, beta=beta, weight_norm=weight_norm)
         self._weight_norm = weight_norm
 
     def reset(self, keep_statistics: bool = False) -> None:
-- 
2.43.0


From e1bba325ad425aacc9a27254a6a2da2ba8ff5c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 011/102] fix: PrioritizedVectorReplayBuffer.set_beta() did not
 change the weights of sampled data

---
 tianshou/data/buffer/vecbuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/vecbuf.py b/tianshou/data/buffer/vecbuf.py
index 00b2560..3dcd6a0 100644
--- a/tianshou/data/buffer/vecbuf.py
+++ b/tianshou/data/buffer/vecbuf.py
@@ -62,6 +62,7 @@ class PrioritizedVectorReplayBuffer(PrioritizedReplayBufferManager):
         super().__init__(buffer_list)
 
     def set_beta(self, beta: float) -> None:
+        super().set_beta(beta)
         for buffer in self.buffers:
             buffer.set_beta(beta)
 
-- 
2.43.0


From 0d0c4090ff5ecac21869ef022dd34a539e74916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 012/102] fix: SegmentTree.get_prefix_sum_idx() overwrote the
 caller's array

---
 tianshou/data/utils/segtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/utils/segtree.py b/tianshou/data/utils/segtree.py
index 3e4582c..d19b0a9 100644
--- a/tianshou/data/utils/segtree.py
+++ b/tianshou/data/utils/segtree.py
@@ -78,7 +78,7 @@ class SegmentTree:
         if not isinstance(value, np.ndarray):
             value = np.array([value])
             single = True
-        index = _get_prefix_sum_idx(value, self._bound, self._value)
+        index = _get_prefix_sum_idx(value.copy(), self._bound, self._value)
         return index.item() if single else index
 
     def _compile(self) -> None:
-- 
2.43.0


From 045c47429343ac10bd4679597a1446dd0df74020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 013/102] fix: a random draw of exactly 0 could make a
 vectorized prioritized buffer return a slot that holds nothing

---
 tianshou/data/buffer/prio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index 69ee703..538736d 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -69,7 +69,9 @@ class PrioritizedReplayBuffer(ReplayBuffer):
 
     def sample_indices(self, batch_size: int | None) -> np.ndarray:
         if batch_size is not None and batch_size > 0 and len(self) > 0:
-            scalar = np.random.rand(batch_size) * self.weight.reduce()
+            # a draw of exactly 0 would select the first slot even if nothing is stored there
+            draw = np.maximum(np.random.rand(batch_size), np.finfo(float).tiny)
+            scalar = draw * self.weight.reduce()
             return self.weight.get_prefix_sum_idx(scalar)  # type: ignore
         return super().sample_indices(batch_size)
 
-- 
2.43.0


From d01e70abedb2890eca88efa980e096a50558789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 014/102] fix: HER with ignore_obs_next recomputed the reward
 with the original instead of the new goal

---
 tianshou/data/buffer/her.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/data/buffer/her.py b/tianshou/data/buffer/her.py
index 087f8d0..0368616 100644
--- a/tianshou/data/buffer/her.py
+++ b/tianshou/data/buffer/her.py
@@ -173,6 +173,10 @@ class HERReplayBuffer(ReplayBuffer):
         else:
             tmp_ep_obs_next = self[self.next(unique_ep_indices)].obs
             assert isinstance(tmp_ep_obs_next, BatchProtocol)
+            tmp_ep_obs_next.desired_goal[:, her_ep_indices] = future_obs.achieved_goal[
+                None,
+                her_ep_indices,
+            ]
             ep_rew[:, her_ep_indices] = self._compute_reward(tmp_ep_obs_next)[:, her_ep_indices]
 
         # Sanity check
-- 
2.43.0


From e0b3d887d4f1968ce4b9b9fde02ca5cb74548016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 015/102] fix: Batch.stack_() into a non-empty batch corrupted
 keys that only some batches have

---
 tianshou/data/batch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 70478a8..1ddc28c 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -1108,6 +1108,8 @@ class Batch(BatchProtocol):
             # reserved keys
             self.__dict__[key] = Batch()
         for key in keys_partial:
+            # self may be one of the batches, so its value must not serve as placeholder
+            stacked: Any = None
             for i, batch in enumerate(batches):
                 if key not in batch.__dict__:
                     continue
@@ -1118,11 +1120,10 @@ class Batch(BatchProtocol):
                     and len(value.get_keys()) == 0  # type: ignore
                 ):
                     continue  # type: ignore
-                try:
-                    self.__dict__[key][i] = value
-                except KeyError:
-                    self.__dict__[key] = create_value(value, len(batches))
-                    self.__dict__[key][i] = value
+                if stacked is None:
+                    stacked = create_value(value, len(batches))
+                stacked[i] = value
+            self.__dict__[key] = stacked
 
     @staticmethod
     def stack(batches: Sequence[dict | TBatch], axis: int = 0) -> TBatch:
-- 
2.43.0


From 8901afa0f2be420eb2405bc7a39de8c3b2639f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 016/102] fix: an empty numpy object array stored in a Batch
 (e.g. after pickling) turned into an empty Batch

---
 tianshou/data/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 1ddc28c..4d8eec8 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -85,7 +85,7 @@ def _is_batch_set(obj: Any) -> bool:
         # "for element in obj" will just unpack the first dimension,
         # but obj.tolist() will flatten ndarray of objects
         # so do not use obj.tolist()
-        if obj.shape == ():
+        if obj.size == 0 or obj.shape == ():
             return False
         return obj.dtype == object and all(isinstance(element, dict | Batch) for element in obj)
     if (
-- 
2.43.0


From 4ff9a00f2812a00f3d91bda3b8af911e68b5d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 017/102] fix: Batch.stack() refused nested batches of
 different structure under a key that only some batches have

---
 tianshou/data/batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 4d8eec8..a3fa8c0 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -1122,6 +1122,8 @@ class Batch(BatchProtocol):
                     continue  # type: ignore
                 if stacked is None:
                     stacked = create_value(value, len(batches))
+                elif isinstance(stacked, Batch) and isinstance(value, Batch):
+                    alloc_by_keys_diff(stacked, value, len(batches))
                 stacked[i] = value
             self.__dict__[key] = stacked
 
-- 
2.43.0


From b6436ae5bbda0f06b16c3bb2331a1b3f68ec1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 018/102] fix: Batch.cat_() into a batch of length zero with
 other keys gave leaves of inconsistent length

---
 tianshou/data/batch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index a3fa8c0..b8a1328 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -970,17 +970,18 @@ class Batch(BatchProtocol):
             # reserved keys
             self.__dict__[key] = Batch()
         for key in keys_partial:
+            # self may be one of the batches, so its value must not serve as placeholder
+            concatenated: Any = None
             for i, batch in enumerate(batches):
                 if key not in batch.__dict__:
                     continue
                 value = batch.get(key)
                 if isinstance(value, Batch) and len(value.get_keys()) == 0:
                     continue
-                try:
-                    self.__dict__[key][sum_lens[i] : sum_lens[i + 1]] = value
-                except KeyError:
-                    self.__dict__[key] = create_value(value, sum_lens[-1], stack=False)
-                    self.__dict__[key][sum_lens[i] : sum_lens[i + 1]] = value
+                if concatenated is None:
+                    concatenated = create_value(value, sum_lens[-1], stack=False)
+                concatenated[sum_lens[i] : sum_lens[i + 1]] = value
+            self.__dict__[key] = concatenated
 
     def cat_(self, batches: BatchProtocol | Sequence[dict | BatchProtocol]) -> None:
         if isinstance(batches, BatchProtocol | dict):
-- 
2.43.0


From abb8ce7b72c5540ed82f68d8d2bf9a3be30f31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 019/102] fix: adding two batches whose keys come in different
 order added unrelated entries

---
 tianshou/data/batch.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index b8a1328..a80f7c4 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -803,14 +803,15 @@ class Batch(BatchProtocol):
     def __iadd__(self, other: Self | Number | np.number) -> Self:
         """Algebraic addition with another Batch instance in-place."""
         if isinstance(other, Batch):
-            for (batch_key, obj), value in zip(
-                self.__dict__.items(),
-                other.__dict__.values(),
-                strict=True,
-            ):  # TODO are keys consistent?
+            if self.get_keys() != other.get_keys():
+                raise ValueError(
+                    f"Cannot add batches with different keys: "
+                    f"{list(self.get_keys())} and {list(other.get_keys())}.",
+                )
+            for batch_key, obj in self.__dict__.items():
                 if isinstance(obj, Batch) and len(obj.get_keys()) == 0:
                     continue
-                self.__dict__[batch_key] += value
+                self.__dict__[batch_key] += other.__dict__[batch_key]
             return self
         if _is_number(other):
             for batch_key, obj in self.items():
-- 
2.43.0


From 3ed03571acac778bee1989f1c2b2c163ed0030d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 020/102] fix: Batch.to_torch() ignored the requested dtype for
 numpy arrays and failed in place on numpy scalars

---
 tianshou/data/batch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index a80f7c4..8d40c12 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -897,8 +897,8 @@ class Batch(BatchProtocol):
             device = torch.device(device)
 
         def arr_to_torch(arr: TArr) -> TArr:
-            if isinstance(arr, np.ndarray):
-                return torch.from_numpy(arr).to(device)
+            if isinstance(arr, np.ndarray | np.number | np.bool_):
+                arr = torch.from_numpy(np.asanyarray(arr))
 
             # TODO: simplify
             if (
-- 
2.43.0


From 1439fed73b4b28378bd7aea0828cc9c9aa083afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 021/102] fix: a zero-dimensional tensor saved to HDF5 could
 not be loaded

---
 tianshou/data/utils/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/utils/converter.py b/tianshou/data/utils/converter.py
index b93a78f..4444271 100644
--- a/tianshou/data/utils/converter.py
+++ b/tianshou/data/utils/converter.py
@@ -159,7 +159,7 @@ def from_hdf5(x: h5py.Group, device: str | None = None) -> Hdf5ConvertibleValues
                 return np.array(x.asstr()[()], dtype=object)
             return np.array(x)
         if x.attrs["__data_type__"] == "Tensor":
-            return torch.tensor(x, device=device)
+            return torch.tensor(np.array(x), device=device)
         return pickle.loads(x[()])
     # handle groups representing a dict or a Batch
     y = dict(x.attrs.items())
-- 
2.43.0


From c7264255f4b2d8b1eeb8efceb673c2545b654e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 022/102] fix: copying or pickling a Batch with a key named
 copy or batch_dict failed or lost the key

---
 tianshou/data/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 8d40c12..46455d2 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -709,7 +709,7 @@ class Batch(BatchProtocol):
         At this point, self is an empty Batch instance that has not been
         initialized, so it can safely be initialized by the pickle state.
         """
-        self.__init__(**state)  # type: ignore
+        self.__init__(state)  # type: ignore
 
     @overload
     def __getitem__(self, index: str) -> Any:
-- 
2.43.0


From a57094419e44801735ebfc1c9fd53d30c73c6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 023/102] fix: CQL calibration returns were stored at the wrong
 transitions when the buffer was wrapped or not full

---
 tianshou/policy/imitation/cql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 66438c7..1640151 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -227,10 +227,13 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
                 gamma=self.gamma,
                 gae_lambda=1.0,
             )
+            # the returns are in sampling order, but have to be stored at the transitions' slots
+            calibration_returns = np.zeros(buffer.maxsize)
+            calibration_returns[indices] = returns
             # TODO: don't access _meta directly
             buffer._meta = cast(
                 RolloutBatchProtocol,
-                Batch(**buffer._meta.__dict__, calibration_returns=returns),
+                Batch({**buffer._meta.__dict__, "calibration_returns": calibration_returns}),
             )
         return buffer
 
-- 
2.43.0


From 2825fd2c03b35794e4b1bb4d87bb3cfbb4f6262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:29 +0000
Subject: [PATCH 024/102] fix: in-place Batch.to_torch_() failed on numpy
 scalars (replaces the dtype change of 3ed0357, which an existing test
 forbids)

---
 tianshou/data/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 46455d2..8e102f1 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -898,7 +898,7 @@ class Batch(BatchProtocol):
 
         def arr_to_torch(arr: TArr) -> TArr:
             if isinstance(arr, np.ndarray | np.number | np.bool_):
-                arr = torch.from_numpy(np.asanyarray(arr))
+                return torch.from_numpy(np.asanyarray(arr)).to(device)
 
             # TODO: simplify
             if (
-- 
2.43.0


From 07b7e5d807debc6dc9f1254352696928af41dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:37 +0000
Subject: [PATCH 025/102] fix: seeding environments that are still stepping
 mixed up their results

---
 tianshou/env/venvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/env/venvs.py b/tianshou/env/venvs.py
index e9309f9..0cfb762 100644
--- a/tianshou/env/venvs.py
+++ b/tianshou/env/venvs.py
@@ -332,6 +332,8 @@ class BaseVectorEnv:
             which a reproducer pass to "seed".
         """
         self._assert_is_not_closed()
+        if self.is_async:
+            self._assert_id(list(range(self.env_num)))
         seed_list: list[None] | list[int]
         if seed is None:
             seed_list = [seed] * self.env_num
-- 
2.43.0


From 0730b15771d33ab5a667fd6f1299416873264c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 026/102] fix: RayEnvWorker.wait() failed when fewer
 environments than wait_num were stepping

---
 tianshou/env/worker/ray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/ray.py b/tianshou/env/worker/ray.py
index 76b8422..25e929e 100644
--- a/tianshou/env/worker/ray.py
+++ b/tianshou/env/worker/ray.py
@@ -51,7 +51,11 @@ class RayEnvWorker(EnvWorker):
         timeout: float | None = None,
     ) -> list["RayEnvWorker"]:
         results = [x.result for x in workers]
-        ready_results, _ = ray.wait(results, num_returns=wait_num, timeout=timeout)
+        ready_results, _ = ray.wait(
+            results,
+            num_returns=min(wait_num, len(results)),
+            timeout=timeout,
+        )
         return [workers[results.index(result)] for result in ready_results]
 
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
-- 
2.43.0


From c903f0f021ea18e83e0afe67e46ce8e89a262919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 027/102] fix: shared-memory environments returned 0 for every
 scalar (e.g. discrete) observation

---
 tianshou/env/worker/subproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index 7756f6e..09069e2 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -84,8 +84,9 @@ def _worker(
         obs: dict | tuple | np.ndarray,
         buffer: dict | tuple | ShArray,
     ) -> None:
-        if isinstance(obs, np.ndarray) and isinstance(buffer, ShArray):
-            buffer.save(obs)
+        if isinstance(buffer, ShArray):
+            # obs may also be a scalar, e.g. in a discrete observation space
+            buffer.save(np.asarray(obs))
         elif isinstance(obs, tuple) and isinstance(buffer, tuple):
             for o, b in zip(obs, buffer, strict=True):
                 _encode_obs(o, b)
-- 
2.43.0


From 5e9f21b8f0679f013911f95b77e7e41660f129cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:54 +0000
Subject: [PATCH 028/102] fix: observations returned by shared-memory
 environments changed when the environment was stepped again

---
 tianshou/env/worker/subproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index 09069e2..54508e6 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -62,7 +62,8 @@ class ShArray:
 
     def get(self) -> np.ndarray:
         obj = self.arr.get_obj()
-        return np.frombuffer(obj, dtype=self.dtype).reshape(self.shape)  # type: ignore
+        # copy because the memory is overwritten by the next observation
+        return np.frombuffer(obj, dtype=self.dtype).reshape(self.shape).copy()  # type: ignore
 
 
 def _setup_buf(space: gym.Space, ctx: BaseContext) -> dict | tuple | ShArray:
-- 
2.43.0


From 64bf9221da32cf0dff026fafdbf7474b18082bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:55 +0000
Subject: [PATCH 029/102] fix: asynchronous DummyVectorEnv returned only every
 second finished environment, fewer than wait_num

---
 tianshou/env/venvs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/venvs.py b/tianshou/env/venvs.py
index 0cfb762..83f58d5 100644
--- a/tianshou/env/venvs.py
+++ b/tianshou/env/venvs.py
@@ -298,7 +298,8 @@ class BaseVectorEnv:
             while not ready_conns:
                 ready_conns = self.worker_class.wait(self.waiting_conn, self.wait_num, self.timeout)
             result = []
-            for conn in ready_conns:
+            # copy because wait() may return waiting_conn itself, which is changed below
+            for conn in list(ready_conns):
                 waiting_index = self.waiting_conn.index(conn)
                 self.waiting_conn.pop(waiting_index)
                 env_id = self.waiting_id.pop(waiting_index)
-- 
2.43.0


From 191c2597ca4f36839e9d551eb8d53c4c056daddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 030/102] fix: collector reported too short episode lengths
 when the buffer was reset or overwritten during the episode

---
 tianshou/data/collector.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 514db4c..f714819 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -195,8 +195,12 @@ class CollectStats(CollectStatsBase):
         # NOTE: in the MARL setting this is not actually a float but rather an array or list, see todo below
         episode_return: float,
         refresh_sequence_stats: bool = False,
+        episode_len: int | None = None,
     ) -> None:
-        self.lens = np.concatenate((self.lens, [len(episode_batch)]), dtype=int)  # type: ignore
+        # the batch may lack steps that the buffer no longer holds (e.g., because it was reset)
+        if episode_len is None:
+            episode_len = len(episode_batch)
+        self.lens = np.concatenate((self.lens, [episode_len]), dtype=int)  # type: ignore
         self.n_collected_episodes += 1
         if self.returns.size == 0:
             # TODO: needed for non-1dim arrays returns that happen in the MARL setting
@@ -943,9 +947,10 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
 
                 # Step 9
                 # execute episode hooks for those envs which emitted 'done'
-                for local_done_idx, cur_ep_return in zip(
+                for local_done_idx, cur_ep_return, cur_ep_len in zip(
                     env_done_local_idx_D,
                     episode_returns_D,
+                    episode_lens_D,
                     strict=True,
                 ):
                     # retrieve the episode batch from the buffer using the episode start and stop indices
@@ -984,6 +989,7 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
                     collect_stats.update_at_episode_done(
                         episode_batch=ep_batch,
                         episode_return=cur_ep_return,
+                        episode_len=int(cur_ep_len),
                     )
 
                 # Step 12
-- 
2.43.0


From 51ba2a2db2f325f23acf62362ed9cd9fee1bd6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:50 +0000
Subject: [PATCH 031/102] fix: recurrent states given as torch tensors were not
 reset at the end of an episode

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index f714819..c89a281 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1072,7 +1072,7 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
         last_hidden_state_RH: np.ndarray | torch.Tensor | Batch | None,
     ) -> None:
         if isinstance(last_hidden_state_RH, torch.Tensor):
-            last_hidden_state_RH[env_ind_local_D].zero_()  # type: ignore[index]
+            last_hidden_state_RH[env_ind_local_D] = 0
         elif isinstance(last_hidden_state_RH, np.ndarray):
             last_hidden_state_RH[env_ind_local_D] = (
                 None if last_hidden_state_RH.dtype == object else 0
-- 
2.43.0


From bf99b81c0b86448a1feafd5ea592f0183ed91c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:04 +0000
Subject: [PATCH 032/102] fix: Collector.collect() accepted negative
 n_step/n_episode and both of them at once

---
 tianshou/data/collector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index c89a281..38f0d8f 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -500,9 +500,13 @@ class BaseCollector(Generic[TCollectStats], ABC):
         return collect_stats
 
     def _validate_n_step_n_episode(self, n_episode: int | None, n_step: int | None) -> None:
-        if not n_step and not n_episode:
+        if (
+            bool(n_step) == bool(n_episode)
+            or (n_step is not None and n_step < 0)
+            or (n_episode is not None and n_episode < 0)
+        ):
             raise ValueError(
-                f"Only one of n_step and n_episode should be set to a value larger than zero "
+                f"Exactly one of n_step and n_episode should be set to a value larger than zero "
                 f"but got {n_step=}, {n_episode=}.",
             )
         if n_step is None and n_episode is None:
-- 
2.43.0


From 3fc91f529433234f60aed197eb06407f63b34edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:38 +0000
Subject: [PATCH 033/102] fix: EpisodeRolloutHookMerged refused any hook that
 adds an entry and accepted overlapping ones

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 38f0d8f..984b8cd 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1510,7 +1510,7 @@ class EpisodeRolloutHookMerged(EpisodeRolloutHook):
                 continue
 
             if self.check_overlapping_keys and (
-                duplicated_entries := set(new_entries).difference(result)
+                duplicated_entries := set(new_entries).intersection(result)
             ):
                 raise KeyError(
                     f"Combined rollout hook {rollout_hook} leads to previously "
-- 
2.43.0


From 27fa1fc5d5b313c5201fe34f539e0cb47613498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 034/102] fix: AsyncCollector reset the environments while some
 were still working

One step(None) only waits for wait_num of the environments which are still
busy (or fewer, after a timeout); the others were then refused by reset().
---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 984b8cd..2cfc7f0 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1165,7 +1165,7 @@ class AsyncCollector(Collector[CollectStats]):
         gym_reset_kwargs: dict[str, Any] | None = None,
     ) -> tuple[np.ndarray, np.ndarray]:
         # we need to step through the envs and wait until they are ready to be able to interact with them
-        if self.env.waiting_id:
+        while self.env.waiting_id:
             self.env.step(None, id=self.env.waiting_id)
         return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
 
-- 
2.43.0


From a34d552b08ac1849c7167c2fb219bd90a4ec1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 035/102] fix: AsyncCollector failed on vector actions and
 stored discrete actions as floats

The container for the current actions of all environments was a
one-dimensional float array whatever the action space.
---
 tianshou/data/collector.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 2cfc7f0..1dd373e 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1236,7 +1236,15 @@ class AsyncCollector(Collector[CollectStats]):
             )
 
             # save act_RA/policy_R/ hidden_state_RH before env.step
-            self._current_action_in_all_envs_EA[ready_env_ids_R] = collect_batch_R.act
+            act_RA = np.asarray(collect_batch_R.act)
+            if len(ready_env_ids_R) == self.env_num:
+                # no action is in flight, so the container can be given the shape and type of the actions
+                self._current_action_in_all_envs_EA = np.empty_like(act_RA)
+            elif self._current_action_in_all_envs_EA.dtype != act_RA.dtype:
+                self._current_action_in_all_envs_EA = self._current_action_in_all_envs_EA.astype(
+                    np.result_type(self._current_action_in_all_envs_EA, act_RA),
+                )
+            self._current_action_in_all_envs_EA[ready_env_ids_R] = act_RA
             if self._current_policy_in_all_envs_E:
                 self._current_policy_in_all_envs_E[ready_env_ids_R] = collect_batch_R.policy_entry
             else:
-- 
2.43.0


From 3ad36065216b6264b4cd47d7cf270eec592b0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 036/102] fix: AsyncCollector could not run policies without a
 state, nor start a policy after random steps

Without a recurrent state or policy output the containers for all
environments were None or empty and indexing them failed; when the first
output came while some environments were still working, the containers had
a row only for each of the ready ones.
---
 tianshou/data/collector.py | 49 +++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 1dd373e..d016a50 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1169,6 +1169,10 @@ class AsyncCollector(Collector[CollectStats]):
             self.env.step(None, id=self.env.waiting_id)
         return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
 
+    def _empty_rows_for_all_envs(self, value_R: Any) -> Any:
+        """Zeros of the same structure as the given values, with one row for each environment."""
+        return Batch(value=value_R)[np.zeros(self.env_num, dtype=int)].empty_().value
+
     @override
     def _collect(
         self,
@@ -1245,24 +1249,31 @@ class AsyncCollector(Collector[CollectStats]):
                     np.result_type(self._current_action_in_all_envs_EA, act_RA),
                 )
             self._current_action_in_all_envs_EA[ready_env_ids_R] = act_RA
-            if self._current_policy_in_all_envs_E:
+            if self._current_policy_in_all_envs_E is None:
+                self._current_policy_in_all_envs_E = Batch()
+            if self._current_policy_in_all_envs_E.get_keys():
+                self._current_policy_in_all_envs_E[ready_env_ids_R] = collect_batch_R.policy_entry
+            elif collect_batch_R.policy_entry.get_keys():
+                # first policy output, possibly with some of the environments still working
+                self._current_policy_in_all_envs_E = self._empty_rows_for_all_envs(
+                    collect_batch_R.policy_entry,
+                )
                 self._current_policy_in_all_envs_E[ready_env_ids_R] = collect_batch_R.policy_entry
-            else:
-                self._current_policy_in_all_envs_E = collect_batch_R.policy_entry  # first iteration
             if collect_batch_R.hidden_state is not None:
-                if self._current_hidden_state_in_all_envs_EH is not None:
-                    # Need to cast since if it's a Tensor, the assignment might in fact fail if hidden_state_RH is not
-                    # a tensor as well. This is hard to express with proper typing, even using @overload, so we cheat
-                    # and hope that if one of the two is a tensor, the other one is as well.
-                    self._current_hidden_state_in_all_envs_EH = cast(
-                        np.ndarray | Batch,
-                        self._current_hidden_state_in_all_envs_EH,
+                if self._current_hidden_state_in_all_envs_EH is None:
+                    self._current_hidden_state_in_all_envs_EH = self._empty_rows_for_all_envs(
+                        collect_batch_R.hidden_state,
                     )
-                    self._current_hidden_state_in_all_envs_EH[
-                        ready_env_ids_R
-                    ] = collect_batch_R.hidden_state
-                else:
-                    self._current_hidden_state_in_all_envs_EH = collect_batch_R.hidden_state
+                # Need to cast since if it's a Tensor, the assignment might in fact fail if hidden_state_RH is not
+                # a tensor as well. This is hard to express with proper typing, even using @overload, so we cheat
+                # and hope that if one of the two is a tensor, the other one is as well.
+                self._current_hidden_state_in_all_envs_EH = cast(
+                    np.ndarray | Batch,
+                    self._current_hidden_state_in_all_envs_EH,
+                )
+                self._current_hidden_state_in_all_envs_EH[
+                    ready_env_ids_R
+                ] = collect_batch_R.hidden_state
 
             # step in env
             obs_next_RO, rew_R, terminated_R, truncated_R, info_R = self.env.step(
@@ -1284,7 +1295,9 @@ class AsyncCollector(Collector[CollectStats]):
                 Batch(
                     obs=self._current_obs_in_all_envs_EO[ready_env_ids_R],
                     act=self._current_action_in_all_envs_EA[ready_env_ids_R],
-                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R],
+                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R]
+                    if self._current_policy_in_all_envs_E.get_keys()
+                    else Batch(),
                     obs_next=obs_next_RO,
                     rew=rew_R,
                     terminated=terminated_R,
@@ -1315,7 +1328,7 @@ class AsyncCollector(Collector[CollectStats]):
             last_obs_RO = copy(obs_next_RO)
             last_info_R = copy(info_R)
             last_hidden_state_RH = copy(
-                self._current_hidden_state_in_all_envs_EH[ready_env_ids_R],  # type: ignore[index]
+                _nullable_slice(self._current_hidden_state_in_all_envs_EH, ready_env_ids_R),
             )
             if num_episodes_done_this_iter:
                 env_ind_local_D = np.where(done_R)[0]
@@ -1350,8 +1363,6 @@ class AsyncCollector(Collector[CollectStats]):
                     self._current_hidden_state_in_all_envs_EH,
                 )
                 self._current_hidden_state_in_all_envs_EH[ready_env_ids_R] = last_hidden_state_RH
-            else:
-                self._current_hidden_state_in_all_envs_EH = last_hidden_state_RH
 
             if (n_step and step_count >= n_step) or (
                 n_episode and num_collected_episodes >= n_episode
-- 
2.43.0


From ffac62d1b1f80d47ea6d82f4d28f40d6b27a80f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 037/102] fix: wrapped vectorised environments could not be
 used with AsyncCollector

Its reset needs the ids of the environments still working.
---
 tianshou/env/venv_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/env/venv_wrappers.py b/tianshou/env/venv_wrappers.py
index 9297dde..f4b990d 100644
--- a/tianshou/env/venv_wrappers.py
+++ b/tianshou/env/venv_wrappers.py
@@ -19,6 +19,10 @@ class VectorEnvWrapper(BaseVectorEnv):
         self.venv = venv
         self.is_async = venv.is_async
 
+    @property
+    def waiting_id(self) -> list[int]:
+        return self.venv.waiting_id
+
     def __len__(self) -> int:
         return len(self.venv)
 
-- 
2.43.0


From 97980964ee82595e867068bea6a7c2c5e41d76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:06 +0000
Subject: [PATCH 038/102] fix: AsyncCollector.reset_env() left the previous
 observations and ready environments in place

The next collect() decided on observations from before the reset, and
environments that had not been ready were never stepped again.
---
 tianshou/data/collector.py | 33 ++++++---------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index d016a50..403addc 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1128,27 +1128,16 @@ class AsyncCollector(Collector[CollectStats]):
         self._current_action_in_all_envs_EA: np.ndarray = np.empty(self.env_num)
         self._current_policy_in_all_envs_E: Batch | None = None
 
-    def reset(
+    @override
+    def reset_env(
         self,
-        reset_buffer: bool = True,
-        reset_stats: bool = True,
         gym_reset_kwargs: dict[str, Any] | None = None,
     ) -> tuple[np.ndarray, np.ndarray]:
-        """Reset the environment, statistics, and data needed to start the collection.
-
-        :param reset_buffer: if true, reset the replay buffer attached
-            to the collector.
-        :param reset_stats: if true, reset the statistics attached to the collector.
-        :param gym_reset_kwargs: extra keyword arguments to pass into the environment's
-            reset function. Defaults to None (extra keyword arguments)
-        :return: The initial observation and info from the environment.
-        """
+        # we need to step through the envs and wait until they are ready to be able to interact with them
+        while self.env.waiting_id:
+            self.env.step(None, id=self.env.waiting_id)
         # This sets the _pre_collect attrs
-        result = super().reset(
-            reset_buffer=reset_buffer,
-            reset_stats=reset_stats,
-            gym_reset_kwargs=gym_reset_kwargs,
-        )
+        result = super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
         # Keep in sync with init!
         self._ready_env_ids_R = np.arange(self.env_num)
         # E denotes the number of parallel environments self.env_num
@@ -1159,16 +1148,6 @@ class AsyncCollector(Collector[CollectStats]):
         self._current_policy_in_all_envs_E = None
         return result
 
-    @override
-    def reset_env(
-        self,
-        gym_reset_kwargs: dict[str, Any] | None = None,
-    ) -> tuple[np.ndarray, np.ndarray]:
-        # we need to step through the envs and wait until they are ready to be able to interact with them
-        while self.env.waiting_id:
-            self.env.step(None, id=self.env.waiting_id)
-        return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
-
     def _empty_rows_for_all_envs(self, value_R: Any) -> Any:
         """Zeros of the same structure as the given values, with one row for each environment."""
         return Batch(value=value_R)[np.zeros(self.env_num, dtype=int)].empty_().value
-- 
2.43.0


From 94f2cbf6dc5c5302ad2112fb84374ae7322ed9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:46 +0000
Subject: [PATCH 039/102] fix: the trainer ran one epoch more than max_epoch
 when there was none left to run

This concerns max_epoch=0 and training resumed after its last epoch: the
check for exhaustion was skipped in the first iteration.
---
 tianshou/trainer/base.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 355c9d3..15aba37 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -317,14 +317,13 @@ class BaseTrainer(ABC):
         self.epoch += 1
         self.iter_num += 1
 
-        if self.iter_num > 1:
-            # iterator exhaustion check
-            if self.epoch > self.max_epoch:
-                raise StopIteration
-
-            # exit flag 1, when stop_fn succeeds in train_step or test_step
-            if self.stop_fn_flag:
-                raise StopIteration
+        # iterator exhaustion check
+        if self.epoch > self.max_epoch:
+            raise StopIteration
+
+        # exit flag 1, when stop_fn succeeds in train_step or test_step
+        if self.iter_num > 1 and self.stop_fn_flag:
+            raise StopIteration
 
         # perform n step_per_epoch
         steps_done_in_this_epoch = 0
-- 
2.43.0


From 1f27d5e61fda41ac7f482e695691107ff9295702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:46 +0000
Subject: [PATCH 040/102] fix: run() reset the trainer and evaluated the
 initial policy twice, and always reset the collectors

Consuming the trainer as an iterator resets it once more; this also made
reset_prior_to_run=False ineffective.
---
 tianshou/trainer/base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 15aba37..33c7fe6 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -1,7 +1,7 @@
 import logging
 import time
 from abc import ABC, abstractmethod
-from collections import defaultdict, deque
+from collections import defaultdict
 from collections.abc import Callable
 from dataclasses import asdict
 from functools import partial
@@ -613,9 +613,6 @@ class BaseTrainer(ABC):
     def run(self, reset_prior_to_run: bool = True, reset_buffer: bool = False) -> InfoStats:
         """Consume iterator.
 
-        See itertools - recipes. Use functions that consume iterators at C speed
-        (feed the entire iterator into a zero-length deque).
-
         :param reset_prior_to_run: whether to reset collectors prior to run
         :param reset_buffer: only has effect if `reset_prior_to_run` is True.
             Then it will also reset the buffer. This is usually not necessary, use
@@ -625,7 +622,9 @@ class BaseTrainer(ABC):
             self.reset(reset_buffer=reset_buffer)
         try:
             self.is_run = True
-            deque(self, maxlen=0)  # feed the entire iterator into a zero-length deque
+            # consume all epochs; not via __iter__, which would reset once more
+            for _ in iter(self.__next__, None):
+                pass
             info = gather_info(
                 start_time=self.start_time,
                 policy_update_time=self.policy_update_time,
-- 
2.43.0


From c66bee6ddbeea708408e4a6dfce455b77cf3a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 041/102] fix: a second run of a trainer continued the gradient
 step and episode counters of the first

reset() is documented to start from zero but only zeroed env_step.
---
 tianshou/trainer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 33c7fe6..7bb6599 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -264,6 +264,9 @@ class BaseTrainer(ABC):
         """Initialize or reset the instance to yield a new iterator from zero."""
         self.is_run = False
         self.env_step = 0
+        self.env_episode = 0
+        self._gradient_step = 0
+        self.policy_update_time = 0.0
         if self.resume_from_log:
             (
                 self.start_epoch,
-- 
2.43.0


From 9a0872609c0ab72030bedbee44ea36ae396a2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 042/102] fix: on-policy training on the whole buffer at once
 was counted as two gradient steps

The counter is the number of mini-batches, which is one if batch_size is None.
---
 tianshou/trainer/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 7bb6599..793b56b 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -757,9 +757,7 @@ class OnpolicyTrainer(BaseTrainer):
         # TODO: remove the gradient step counting in trainers? Doesn't seem like
         #   it's important and it adds complexity
         self._gradient_step += 1
-        if self.batch_size is None:
-            self._gradient_step += 1
-        elif self.batch_size > 0:
+        if self.batch_size is not None and self.batch_size > 0:
             self._gradient_step += int((len(self.train_collector.buffer) - 0.1) // self.batch_size)
 
         # Note 1: this is the main difference to the off-policy trainer!
-- 
2.43.0


From 6d377b833d8bc58e3d2b2f3a1f97352325ce260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:11 +0000
Subject: [PATCH 043/102] fix: the collect_time of a Collector was never
 updated

Times derived from it (test_time, train_time_collect) were always 0; only
AsyncCollector accumulated it.
---
 tianshou/data/collector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 403addc..121e8f9 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -482,6 +482,7 @@ class BaseCollector(Generic[TCollectStats], ABC):
                 gym_reset_kwargs=gym_reset_kwargs,
             )
         collect_time = time.time() - pre_collect_time
+        self.collect_time += collect_time
         collect_stats.set_collect_time(collect_time, update_collect_speed=True)
         collect_stats.refresh_all_sequence_stats()
 
@@ -1161,8 +1162,6 @@ class AsyncCollector(Collector[CollectStats]):
         render: float | None = None,
         gym_reset_kwargs: dict[str, Any] | None = None,
     ) -> CollectStats:
-        start_time = time.time()
-
         step_count = 0
         num_collected_episodes = 0
         episode_returns: list[float] = []
@@ -1351,8 +1350,6 @@ class AsyncCollector(Collector[CollectStats]):
         # generate statistics
         self.collect_step += step_count
         self.collect_episode += num_collected_episodes
-        collect_time = max(time.time() - start_time, 1e-9)
-        self.collect_time += collect_time
 
         # persist for future collect iterations
         self._ready_env_ids_R = ready_env_ids_R
-- 
2.43.0


From 34ce2c773c862c88d484af02c7374899e8f5255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:13 +0000
Subject: [PATCH 044/102] fix: evaluations during training ignored
 reward_metric

With multi-agent rewards the stop condition was applied to the mean over all
agents instead of the chosen metric.
---
 tianshou/trainer/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 793b56b..c481081 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -565,6 +565,7 @@ class BaseTrainer(ABC):
                     self.episode_per_test,
                     self.logger,
                     self.env_step,
+                    self.reward_metric,
                 )
                 assert test_result.returns_stat is not None  # for mypy
                 if self.stop_fn(test_result.returns_stat.mean):
-- 
2.43.0


From bece215bd0cac68d0d277fb54eb6d1d28749f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:13 +0000
Subject: [PATCH 045/102] fix: best results of evaluations during training were
 not saved or attributed to their epoch

When training stopped early, save_best_fn was not called for the policy that
had reached the goal, best_epoch was not updated, and the best reward was
replaced even by a worse one. Best results of evaluations that did not stop
the training were ignored.
---
 tianshou/trainer/base.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index c481081..54caf4f 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -432,14 +432,7 @@ class BaseTrainer(ABC):
         )
         assert test_stat.returns_stat is not None  # for mypy
         rew, rew_std = test_stat.returns_stat.mean, test_stat.returns_stat.std
-        score = self.compute_score_fn(test_stat)
-        if self.best_epoch < 0 or self.best_score < score:
-            self.best_score = score
-            self.best_epoch = self.epoch
-            self.best_reward = float(rew)
-            self.best_reward_std = rew_std
-            if self.save_best_fn:
-                self.save_best_fn(self.policy)
+        score = self._update_best_result(test_stat)
         cur_info, best_info = "", ""
         if score != rew:
             cur_info, best_info = f", score: {score: .6f}", f", best_score: {self.best_score:.6f}"
@@ -457,6 +450,19 @@ class BaseTrainer(ABC):
 
         return test_stat, stop_fn_flag
 
+    def _update_best_result(self, test_stat: CollectStats) -> float:
+        """Update the best result if the score of the given test result is better; return that score."""
+        assert test_stat.returns_stat is not None  # for mypy
+        score = self.compute_score_fn(test_stat)
+        if self.best_epoch < 0 or self.best_score < score:
+            self.best_score = score
+            self.best_epoch = self.epoch
+            self.best_reward = float(test_stat.returns_stat.mean)
+            self.best_reward_std = test_stat.returns_stat.std
+            if self.save_best_fn:
+                self.save_best_fn(self.policy)
+        return score
+
     def training_step(self) -> tuple[CollectStatsBase, TrainingStats | None, bool]:
         """Perform one training iteration.
 
@@ -568,11 +574,9 @@ class BaseTrainer(ABC):
                     self.reward_metric,
                 )
                 assert test_result.returns_stat is not None  # for mypy
+                self._update_best_result(test_result)
                 if self.stop_fn(test_result.returns_stat.mean):
                     should_stop_training = True
-                    self.best_reward = test_result.returns_stat.mean
-                    self.best_reward_std = test_result.returns_stat.std
-                    self.best_score = self.compute_score_fn(test_result)
 
         return should_stop_training
 
-- 
2.43.0


From a8264881625dd5cd53bf825b298d3ff95b3045de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 046/102] fix: an error during a policy update left the policy
 marked as updating

---
 tianshou/policy/base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index 066a23a..78daf64 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -542,13 +542,15 @@ class BasePolicy(nn.Module, Generic[TTrainingStats], ABC):
         start_time = time.time()
         batch, indices = buffer.sample(sample_size)
         self.updating = True
-        batch = self.process_fn(batch, buffer, indices)
-        with torch_train_mode(self):
-            training_stat = self.learn(batch, **kwargs)
-        self.post_process_fn(batch, buffer, indices)
-        if self.lr_scheduler is not None:
-            self.lr_scheduler.step()
-        self.updating = False
+        try:
+            batch = self.process_fn(batch, buffer, indices)
+            with torch_train_mode(self):
+                training_stat = self.learn(batch, **kwargs)
+            self.post_process_fn(batch, buffer, indices)
+            if self.lr_scheduler is not None:
+                self.lr_scheduler.step()
+        finally:
+            self.updating = False
         training_stat.train_time = time.time() - start_time
         return training_stat
 
-- 
2.43.0


From 9cd3cf282297e272fffe7ebd854a37d24859add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:04 +0000
Subject: [PATCH 047/102] fix: the target networks of DiscreteCRRPolicy
 followed it into training mode

---
 tianshou/policy/imitation/discrete_crr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index 9c54129..a83e522 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -1,6 +1,6 @@
 from copy import deepcopy
 from dataclasses import dataclass
-from typing import Any, Literal, TypeVar
+from typing import Any, Literal, Self, TypeVar
 
 import gymnasium as gym
 import torch
@@ -100,6 +100,13 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
         self._beta = beta
         self._min_q_weight = min_q_weight
 
+    def train(self, mode: bool = True) -> Self:
+        """Set the module in training mode, except for the target networks."""
+        self.training = mode
+        self.actor.train(mode)
+        self.critic.train(mode)
+        return self
+
     def sync_weight(self) -> None:
         self.actor_old.load_state_dict(self.actor.state_dict())
         self.critic_old.load_state_dict(self.critic.state_dict())
-- 
2.43.0


From b9bbef7a109b2816ac550d73f12b30ab538a20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 048/102] fix: the target networks of BCQPolicy were always in
 training mode

---
 tianshou/policy/imitation/bcq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 991c4aa..6039938 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -92,16 +92,19 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
         )
         self.actor_perturbation = actor_perturbation
         self.actor_perturbation_target = copy.deepcopy(self.actor_perturbation)
+        self.actor_perturbation_target.eval()
         self.actor_perturbation_optim = actor_perturbation_optim
 
         self.critic = critic
         self.critic_target = copy.deepcopy(self.critic)
+        self.critic_target.eval()
         self.critic_optim = critic_optim
 
         critic2 = critic2 or copy.deepcopy(critic)
         critic2_optim = critic2_optim or clone_optimizer(critic_optim, critic2.parameters())
         self.critic2 = critic2
         self.critic2_target = copy.deepcopy(self.critic2)
+        self.critic2_target.eval()
         self.critic2_optim = critic2_optim
 
         self.vae = vae
-- 
2.43.0


From 12f500d242bfe9fcc5c15076890c3f3c8fbe4d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 049/102] fix: the generative model of BCQPolicy was in
 training mode during rollouts

---
 tianshou/policy/imitation/bcq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 6039938..2addd23 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -123,6 +123,7 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
         self.actor_perturbation.train(mode)
         self.critic.train(mode)
         self.critic2.train(mode)
+        self.vae.train(mode)
         return self
 
     def forward(
-- 
2.43.0


From ca4b972ee531db86e01c155552548b7c3d8e7105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:42 +0000
Subject: [PATCH 050/102] fix: the fraction proposal network of FQFPolicy was
 in training mode during rollouts

---
 tianshou/policy/modelfree/fqf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/fqf.py b/tianshou/policy/modelfree/fqf.py
index 9c87f9c..667d867 100644
--- a/tianshou/policy/modelfree/fqf.py
+++ b/tianshou/policy/modelfree/fqf.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from typing import Any, Literal, TypeVar, cast
+from typing import Any, Literal, Self, TypeVar, cast
 
 import gymnasium as gym
 import numpy as np
@@ -94,6 +94,11 @@ class FQFPolicy(QRDQNPolicy[TFQFTrainingStats]):
         self.ent_coef = ent_coef
         self.fraction_optim = fraction_optim
 
+    def train(self, mode: bool = True) -> Self:
+        super().train(mode)
+        self.fraction_model.train(mode)
+        return self
+
     def _target_q(self, buffer: ReplayBuffer, indices: np.ndarray) -> torch.Tensor:
         obs_next_batch = Batch(
             obs=buffer[indices].obs_next,
-- 
2.43.0


From 4421b1a93ebc5ef89bb57bbb699d87ce6f145b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:00 +0000
Subject: [PATCH 051/102] fix: masked actions could be chosen for large action
 values

---
 tianshou/policy/modelfree/dqn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/modelfree/dqn.py b/tianshou/policy/modelfree/dqn.py
index e0ada07..f25394f 100644
--- a/tianshou/policy/modelfree/dqn.py
+++ b/tianshou/policy/modelfree/dqn.py
@@ -158,9 +158,8 @@ class DQNPolicy(BasePolicy[TDQNTrainingStats], Generic[TDQNTrainingStats]):
     def compute_q_value(self, logits: torch.Tensor, mask: np.ndarray | None) -> torch.Tensor:
         """Compute the q value based on the network's raw output and action mask."""
         if mask is not None:
-            # the masked q value should be smaller than logits.min()
-            min_value = logits.min() - logits.max() - 1.0
-            logits = logits + to_torch_as(1 - mask, logits) * min_value
+            # the masked q values should be smaller than all others
+            logits = logits.masked_fill(to_torch_as(mask, logits) == 0, -torch.inf)
         return logits
 
     def forward(
-- 
2.43.0


From e402036bfbe141525006fdb3ad8ea6359d85cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:13 +0000
Subject: [PATCH 052/102] fix: MultiAgentPolicyManager could not act on
 observations without a mask

---
 tianshou/policy/multiagent/mapolicy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 05cc8db..a56eddb 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -231,7 +231,7 @@ class MultiAgentPolicyManager(BasePolicy):
             if not hasattr(tmp_batch.obs, "mask"):
                 if hasattr(tmp_batch.obs, "obs"):
                     tmp_batch.obs = tmp_batch.obs.obs
-                if hasattr(tmp_batch.obs_next, "obs"):
+                if hasattr(tmp_batch, "obs_next") and hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
             out = policy(
                 batch=tmp_batch,
-- 
2.43.0


From 6c8922f35171be5b1ad7db319967bc1982c839ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:51 +0000
Subject: [PATCH 053/102] fix: scaled actions could lie outside the action
 space by a rounding error

---
 tianshou/policy/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index 78daf64..27b03b9 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -396,7 +396,8 @@ class BasePolicy(nn.Module, Generic[TTrainingStats], ABC):
                     np.min(act) >= -1.0 and np.max(act) <= 1.0
                 ), f"action scaling only accepts raw action range = [-1, 1], but got: {act}"
                 low, high = self.action_space.low, self.action_space.high
-                act = low + (high - low) * (act + 1.0) / 2.0
+                # rounding errors must not lead out of the action space
+                act = np.clip(low + (high - low) * (act + 1.0) / 2.0, low, high)
         return act
 
     def map_action_inverse(
-- 
2.43.0


From d7b5f628548142bd29cafc45f47eebb6271c4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:15 +0000
Subject: [PATCH 054/102] fix: compute_action dropped action dimensions of size
 one

---
 tianshou/policy/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index 27b03b9..b5cdb61 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -305,7 +305,7 @@ class BasePolicy(nn.Module, Generic[TTrainingStats], ABC):
         obs = np.array(obs)  # convert array-like to array (e.g. LazyFrames)
         obs = obs[None, :]  # add batch dimension
         obs_batch = cast(ObsBatchProtocol, Batch(obs=obs, info=info))
-        act = self.forward(obs_batch, state=state).act.squeeze()
+        act = self.forward(obs_batch, state=state).act[0]  # remove the batch dimension
         if isinstance(act, torch.Tensor):
             act = act.detach().cpu().numpy()
         act = self.map_action(act)
-- 
2.43.0


From f971b8e80de61794cb8a4d6cb8af8c3e8055220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 055/102] fix: rewards returned by PettingZooEnv.step() were
 changed by later steps

---
 tianshou/env/pettingzoo_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/env/pettingzoo_env.py b/tianshou/env/pettingzoo_env.py
index 1967414..2dcdef1 100644
--- a/tianshou/env/pettingzoo_env.py
+++ b/tianshou/env/pettingzoo_env.py
@@ -115,8 +115,8 @@ class PettingZooEnv(AECEnv, ABC):
             else:
                 obs = {"agent_id": self.env.agent_selection, "obs": observation}
 
-        for agent_id, reward in self.env.rewards.items():
-            self.rewards[self.agent_idx[agent_id]] = reward
+        # a new list per step, as callers may keep it; agents who left the game get no reward
+        self.rewards = [self.env.rewards.get(agent_id, 0) for agent_id in self.agents]
         return obs, self.rewards, term, trunc, info
 
     def close(self) -> None:
-- 
2.43.0


From 143f4984402f70a58937033c6df98e686831a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 056/102] fix: an error in an agent's process_fn left the
 shared buffer with that agent's rewards

---
 tianshou/policy/multiagent/mapolicy.py | 36 ++++++++++++++------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index a56eddb..c118e13 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -141,23 +141,25 @@ class MultiAgentPolicyManager(BasePolicy):
             # Since we do not override buffer.__setattr__, here we use _meta to
             # change buffer.rew, otherwise buffer.rew = Batch() has no effect.
             save_rew, buffer._meta.rew = buffer.rew, Batch()  # type: ignore
-        for agent, policy in self.policies.items():
-            agent_index = np.nonzero(batch.obs.agent_id == agent)[0]
-            if len(agent_index) == 0:
-                results[agent] = cast(RolloutBatchProtocol, Batch())
-                continue
-            tmp_batch, tmp_indice = batch[agent_index], indice[agent_index]
-            if has_rew:
-                tmp_batch.rew = tmp_batch.rew[:, self.agent_idx[agent]]
-                buffer._meta.rew = save_rew[:, self.agent_idx[agent]]
-            if not hasattr(tmp_batch.obs, "mask"):
-                if hasattr(tmp_batch.obs, "obs"):
-                    tmp_batch.obs = tmp_batch.obs.obs
-                if hasattr(tmp_batch.obs_next, "obs"):
-                    tmp_batch.obs_next = tmp_batch.obs_next.obs
-            results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
-        if has_rew:  # restore from save_rew
-            buffer._meta.rew = save_rew
+        try:
+            for agent, policy in self.policies.items():
+                agent_index = np.nonzero(batch.obs.agent_id == agent)[0]
+                if len(agent_index) == 0:
+                    results[agent] = cast(RolloutBatchProtocol, Batch())
+                    continue
+                tmp_batch, tmp_indice = batch[agent_index], indice[agent_index]
+                if has_rew:
+                    tmp_batch.rew = tmp_batch.rew[:, self.agent_idx[agent]]
+                    buffer._meta.rew = save_rew[:, self.agent_idx[agent]]
+                if not hasattr(tmp_batch.obs, "mask"):
+                    if hasattr(tmp_batch.obs, "obs"):
+                        tmp_batch.obs = tmp_batch.obs.obs
+                    if hasattr(tmp_batch.obs_next, "obs"):
+                        tmp_batch.obs_next = tmp_batch.obs_next.obs
+                results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
+        finally:
+            if has_rew:  # restore from save_rew
+                buffer._meta.rew = save_rew
         return cast(MAPRolloutBatchProtocol, Batch(results))
 
     _TArrOrActBatch = TypeVar("_TArrOrActBatch", bound="np.ndarray | ActBatchProtocol")
-- 
2.43.0


From 096f9476a38fc186427be41d21be3da1488dc4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 057/102] fix: policies inside ICMPolicy and
 MultiAgentPolicyManager did not know they were within a training step

---
 tianshou/policy/base.py                |  4 ++++
 tianshou/policy/modelbased/icm.py      |  3 +++
 tianshou/policy/multiagent/mapolicy.py |  3 +++
 tianshou/utils/torch_utils.py          | 15 +++++++++------
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index b5cdb61..dcd5657 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -255,6 +255,10 @@ class BasePolicy(nn.Module, Generic[TTrainingStats], ABC):
     def action_type(self) -> Literal["discrete", "continuous"]:
         return self._action_type
 
+    def get_wrapped_policies(self) -> "list[BasePolicy]":
+        """Return the policies this policy delegates to; none by default."""
+        return []
+
     def set_agent_id(self, agent_id: int) -> None:
         """Set self.agent_id = agent_id, for MARL."""
         self.agent_id = agent_id
diff --git a/tianshou/policy/modelbased/icm.py b/tianshou/policy/modelbased/icm.py
index 9a603b7..0febaa9 100644
--- a/tianshou/policy/modelbased/icm.py
+++ b/tianshou/policy/modelbased/icm.py
@@ -83,6 +83,9 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         self.reward_scale = reward_scale
         self.forward_loss_weight = forward_loss_weight
 
+    def get_wrapped_policies(self) -> list[BasePolicy]:
+        return [self.policy]
+
     def train(self, mode: bool = True) -> Self:
         """Set the module in training mode."""
         self.policy.train(mode)
diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index c118e13..8145313 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -110,6 +110,9 @@ class MultiAgentPolicyManager(BasePolicy):
         self.policies: dict[str | int, BasePolicy] = dict(zip(env.agents, policies, strict=True))
         """Maps agent_id to policy."""
 
+    def get_wrapped_policies(self) -> list[BasePolicy]:
+        return list(self.policies.values())
+
     # TODO: unused - remove it?
     def replace_policy(self, policy: BasePolicy, agent_id: int) -> None:
         """Replace the "agent_id"th policy in this manager."""
diff --git a/tianshou/utils/torch_utils.py b/tianshou/utils/torch_utils.py
index 1ffb9fc..6116be9 100644
--- a/tianshou/utils/torch_utils.py
+++ b/tianshou/utils/torch_utils.py
@@ -1,5 +1,5 @@
 from collections.abc import Iterator
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from typing import TYPE_CHECKING, overload
 
 import torch
@@ -35,11 +35,14 @@ def policy_within_training_step(policy: "BasePolicy", enabled: bool = True) -> I
     within training step and in torch train mode.
     """
     original_mode = policy.is_within_training_step
-    try:
-        policy.is_within_training_step = enabled
-        yield
-    finally:
-        policy.is_within_training_step = original_mode
+    with ExitStack() as stack:
+        for wrapped_policy in policy.get_wrapped_policies():
+            stack.enter_context(policy_within_training_step(wrapped_policy, enabled))
+        try:
+            policy.is_within_training_step = enabled
+            yield
+        finally:
+            policy.is_within_training_step = original_mode
 
 
 @overload
-- 
2.43.0


From 1983de785ce243941117ae1140113eb8c75fd3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 058/102] fix: MultiAgentPolicyManager never entered evaluation
 mode itself and could not be restored to it

---
 tianshou/policy/multiagent/mapolicy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 8145313..1683527 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -286,6 +286,7 @@ class MultiAgentPolicyManager(BasePolicy):
     # No need for a similar eval function, as eval internally uses the train function.
     def train(self, mode: bool = True) -> Self:
         """Set each internal policy in training mode."""
+        self.training = mode
         for policy in self.policies.values():
             policy.train(mode)
         return self
-- 
2.43.0


From cdb0a7c3c778b88351fc5f9200253aae493b73eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 059/102] fix: MultiAgentPolicyManager did not post-process its
 agents' data, so that priorities were never updated

---
 tianshou/policy/multiagent/mapolicy.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 1683527..d04d7c8 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -165,6 +165,19 @@ class MultiAgentPolicyManager(BasePolicy):
                 buffer._meta.rew = save_rew
         return cast(MAPRolloutBatchProtocol, Batch(results))
 
+    def post_process_fn(  # type: ignore
+        self,
+        batch: MAPRolloutBatchProtocol,
+        buffer: ReplayBuffer,
+        indices: np.ndarray,
+    ) -> None:
+        """Dispatch the data of every agent, as returned by `process_fn`, to its policy's post_process_fn."""
+        agent_ids = buffer.obs.agent_id[indices]
+        for agent_id, policy in self.policies.items():
+            data = batch[agent_id]
+            if len(data.get_keys()) != 0:
+                policy.post_process_fn(data, buffer, indices[agent_ids == agent_id])
+
     _TArrOrActBatch = TypeVar("_TArrOrActBatch", bound="np.ndarray | ActBatchProtocol")
 
     def exploration_noise(
-- 
2.43.0


From 0f54aa383cabdaeafe267b2ca77a58a4d31587dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 060/102] fix: the actor loss of DiscreteCRRPolicy combined
 every action with every advantage

log_prob has shape (B,) and the coefficient (B, 1): the product was a B x B matrix.
---
 tianshou/policy/imitation/discrete_crr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index a83e522..b8d364d 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -144,7 +144,7 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
             actor_loss_coef = (advantage / self._beta).exp().clamp(0, self._ratio_upper_bound)
         else:
             actor_loss_coef = 1.0  # effectively behavior cloning
-        actor_loss = (-dist.log_prob(act) * actor_loss_coef).mean()
+        actor_loss = (-dist.log_prob(act).unsqueeze(1) * actor_loss_coef).mean()
         # CQL loss/regularizer
         min_q_loss = (q_t.logsumexp(1) - qa_t).mean()
         loss = actor_loss + critic_loss + self._min_q_weight * min_q_loss
-- 
2.43.0


From 2e1e7cb77a357b331594fe2a26a968d747c1a8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 061/102] fix: DQNPolicy with clip_loss_grad ignored the
 importance weights of prioritized replay

---
 tianshou/policy/modelfree/dqn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/dqn.py b/tianshou/policy/modelfree/dqn.py
index f25394f..364b650 100644
--- a/tianshou/policy/modelfree/dqn.py
+++ b/tianshou/policy/modelfree/dqn.py
@@ -221,7 +221,9 @@ class DQNPolicy(BasePolicy[TDQNTrainingStats], Generic[TDQNTrainingStats]):
         if self.clip_loss_grad:
             y = q.reshape(-1, 1)
             t = returns.reshape(-1, 1)
-            loss = torch.nn.functional.huber_loss(y, t, reduction="mean")
+            loss = (
+                torch.nn.functional.huber_loss(y, t, reduction="none").flatten() * weight
+            ).mean()
         else:
             loss = (td_error.pow(2) * weight).mean()
 
-- 
2.43.0


From a5297e46ce7bc7f176e78fa9e5247dd7e192eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:03 +0000
Subject: [PATCH 062/102] fix: Perturbation used the first row's output of an
 MLP for all rows of a batch

[0] was meant for networks returning (logits, state).
---
 tianshou/utils/net/continuous.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tianshou/utils/net/continuous.py b/tianshou/utils/net/continuous.py
index a0b85ed..3ffdd1a 100644
--- a/tianshou/utils/net/continuous.py
+++ b/tianshou/utils/net/continuous.py
@@ -442,7 +442,9 @@ class Perturbation(nn.Module):
 
     def forward(self, state: torch.Tensor, action: torch.Tensor) -> torch.Tensor:
         # preprocess_net
-        logits = self.preprocess_net(torch.cat([state, action], -1))[0]
+        logits = self.preprocess_net(torch.cat([state, action], -1))
+        if isinstance(logits, tuple):  # (logits, hidden state)
+            logits = logits[0]
         noise = self.phi * self.max_action * torch.tanh(logits)
         # clip to [-max_action, max_action]
         return (noise + action).clamp(-self.max_action, self.max_action)
-- 
2.43.0


From a35842076ecae7631c679c04ab7ab107b2e31e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:03 +0000
Subject: [PATCH 063/102] fix: BranchingDQNPolicy could not learn from a batch
 of a single transition

---
 tianshou/policy/modelfree/bdq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index d7196a9..48f6fc7 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -111,7 +111,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
             act = to_torch(act, dtype=torch.long, device=target_q.device)
         else:
             act = target_q.max(-1).indices.unsqueeze(-1)
-        return torch.gather(target_q, -1, act).squeeze()
+        return torch.gather(target_q, -1, act).squeeze(-1)
 
     def _compute_return(
         self,
-- 
2.43.0


From dcf12a2b30a28ed4d7396c656403497733acb60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:15 +0000
Subject: [PATCH 064/102] fix: normalising the advantage of a single transition
 destroyed the policy

The standard deviation of one value is NaN, and so became all parameters.
---
 tianshou/policy/modelfree/npg.py | 2 +-
 tianshou/policy/modelfree/ppo.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/policy/modelfree/npg.py b/tianshou/policy/modelfree/npg.py
index 9e04d3f..5dea8dd 100644
--- a/tianshou/policy/modelfree/npg.py
+++ b/tianshou/policy/modelfree/npg.py
@@ -119,7 +119,7 @@ class NPGPolicy(A2CPolicy[TNPGTrainingStats], Generic[TNPGTrainingStats]):  # ty
             for minibatch in batch.split(self.max_batchsize, shuffle=False, merge_last=True):
                 old_log_prob.append(self(minibatch).dist.log_prob(minibatch.act))
         batch.logp_old = torch.cat(old_log_prob, dim=0)
-        if self.norm_adv:
+        if self.norm_adv and len(batch.adv) > 1:  # std of one value is NaN
             batch.adv = (batch.adv - batch.adv.mean()) / batch.adv.std()
         return batch
 
diff --git a/tianshou/policy/modelfree/ppo.py b/tianshou/policy/modelfree/ppo.py
index a4694b5..eda1a99 100644
--- a/tianshou/policy/modelfree/ppo.py
+++ b/tianshou/policy/modelfree/ppo.py
@@ -185,7 +185,7 @@ class PPOPolicy(A2CPolicy[TPPOTrainingStats], Generic[TPPOTrainingStats]):  # ty
                 # calculate loss for actor
                 advantages = minibatch.adv
                 dist = self(minibatch).dist
-                if self.norm_adv:
+                if self.norm_adv and len(advantages) > 1:  # std of one value is NaN
                     mean, std = advantages.mean(), advantages.std()
                     advantages = (advantages - mean) / (std + self._eps)  # per-batch norm
                 ratios = (dist.log_prob(minibatch.act) - minibatch.logp_old).exp().float()
-- 
2.43.0


From 9ae4ad2442288ce66e49304b160c14f26191f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:15 +0000
Subject: [PATCH 065/102] fix: ICMPolicy did not restore the original rewards
 after an update

orig_rew was the array the intrinsic reward was added to.
---
 tianshou/policy/modelbased/icm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelbased/icm.py b/tianshou/policy/modelbased/icm.py
index 0febaa9..7934929 100644
--- a/tianshou/policy/modelbased/icm.py
+++ b/tianshou/policy/modelbased/icm.py
@@ -136,7 +136,7 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         """
         mse_loss, act_hat = self.model(batch.obs, batch.act, batch.obs_next)
         batch.policy = Batch(orig_rew=batch.rew, act_hat=act_hat, mse_loss=mse_loss)
-        batch.rew += to_numpy(mse_loss * self.reward_scale)
+        batch.rew = batch.rew + to_numpy(mse_loss * self.reward_scale)
         return self.policy.process_fn(batch, buffer, indices)
 
     def post_process_fn(
-- 
2.43.0


From 522a15199d7e1de7d35460b260626eee760640a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 066/102] fix: RunningMeanStd used the initial standard
 deviation as a variance

---
 tianshou/utils/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index 779b0ba..d2d0043 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -85,7 +85,7 @@ class RunningMeanStd:
         clip_max: float | None = 10.0,
         epsilon: float = np.finfo(np.float32).eps.item(),
     ) -> None:
-        self.mean, self.var = mean, std
+        self.mean, self.var = mean, std**2
         self.clip_max = clip_max
         self.count = 0
         self.eps = epsilon
-- 
2.43.0


From 770b6f9c64c9eed21865abd324c3b7cb8bef5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 067/102] fix: RunningMeanStd became NaN when updated with no
 data

---
 tianshou/utils/statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index d2d0043..cfe3298 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -98,6 +98,8 @@ class RunningMeanStd:
 
     def update(self, data_array: np.ndarray) -> None:
         """Add a batch of item into RMS with the same shape, modify mean/var/count."""
+        if len(data_array) == 0:
+            return
         batch_mean, batch_var = np.mean(data_array, axis=0), np.var(data_array, axis=0)
         batch_count = len(data_array)
 
-- 
2.43.0


From bafd7f2b074928b9d8a319e2b2bde9ece010064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 068/102] fix: MovAvg let in NaN values other than the object
 np.nan

NaN != NaN: membership in a list finds NaN by identity only.
---
 tianshou/utils/statistics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index cfe3298..2c251b9 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -27,7 +27,6 @@ class MovAvg:
         super().__init__()
         self.size = size
         self.cache: list[np.number] = []
-        self.banned = [np.inf, np.nan, -np.inf]
 
     def add(
         self,
@@ -43,7 +42,7 @@ class MovAvg:
         if np.isscalar(data_array):
             data_array = [data_array]
         for number in data_array:  # type: ignore
-            if number not in self.banned:
+            if np.isfinite(number):
                 self.cache.append(number)
         if self.size > 0 and len(self.cache) > self.size:
             self.cache = self.cache[-self.size :]
-- 
2.43.0


From feca072719a27700eeb9ba56b239251deba46688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 069/102] fix: logging intervals did not continue from restored
 progress

Evaluations are logged by environment step, but continued from the restored
epoch; the information logged per epoch did not continue at all.
---
 tianshou/utils/logger/tensorboard.py | 4 ++--
 tianshou/utils/logger/wandb.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tianshou/utils/logger/tensorboard.py b/tianshou/utils/logger/tensorboard.py
index ef504cb..1c40c89 100644
--- a/tianshou/utils/logger/tensorboard.py
+++ b/tianshou/utils/logger/tensorboard.py
@@ -126,14 +126,14 @@ class TensorboardLogger(BaseLogger):
 
         try:  # epoch / gradient_step
             epoch = ea.scalars.Items("save/epoch")[-1].step
-            self.last_save_step = self.last_log_test_step = epoch
+            self.last_save_step = self.last_log_info_step = epoch
             gradient_step = ea.scalars.Items("save/gradient_step")[-1].step
             self.last_log_update_step = gradient_step
         except KeyError:
             epoch, gradient_step = 0, 0
         try:  # offline trainer doesn't have env_step
             env_step = ea.scalars.Items("save/env_step")[-1].step
-            self.last_log_train_step = env_step
+            self.last_log_train_step = self.last_log_test_step = env_step
         except KeyError:
             env_step = 0
 
diff --git a/tianshou/utils/logger/wandb.py b/tianshou/utils/logger/wandb.py
index 9172bf5..929bb39 100644
--- a/tianshou/utils/logger/wandb.py
+++ b/tianshou/utils/logger/wandb.py
@@ -172,14 +172,14 @@ class WandbLogger(BaseLogger):
 
         try:  # epoch / gradient_step
             epoch = checkpoint_artifact.metadata["save/epoch"]
-            self.last_save_step = self.last_log_test_step = epoch
+            self.last_save_step = self.last_log_info_step = epoch
             gradient_step = checkpoint_artifact.metadata["save/gradient_step"]
             self.last_log_update_step = gradient_step
         except KeyError:
             epoch, gradient_step = 0, 0
         try:  # offline trainer doesn't have env_step
             env_step = checkpoint_artifact.metadata["save/env_step"]
-            self.last_log_train_step = env_step
+            self.last_log_train_step = self.last_log_test_step = env_step
         except KeyError:
             env_step = 0
         return epoch, env_step, gradient_step
-- 
2.43.0


From 7060723a8e7fb05c1eaac633d90bfa8195740c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 070/102] fix: restore_logged_data returned a random sample of
 long logs

EventAccumulator keeps 10000 scalars per tag unless told to keep all.
---
 tianshou/utils/logger/tensorboard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tianshou/utils/logger/tensorboard.py b/tianshou/utils/logger/tensorboard.py
index 1c40c89..37d1a0c 100644
--- a/tianshou/utils/logger/tensorboard.py
+++ b/tianshou/utils/logger/tensorboard.py
@@ -150,7 +150,11 @@ class TensorboardLogger(BaseLogger):
         form a nested structure, where the hierarchy is represented by the slashes
         in the tensorboard key-strings.
         """
-        ea = event_accumulator.EventAccumulator(log_path)
+        # 0: keep all scalars (the default is a random sample of 10000)
+        ea = event_accumulator.EventAccumulator(
+            log_path,
+            size_guidance={event_accumulator.SCALARS: 0},
+        )
         ea.Reload()
 
         def add_value_to_innermost_nested_dict(
-- 
2.43.0


From 58585ae77703716c12040779f899ef94ca60db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 071/102] fix: WandbLogger.load passed its save interval and
 write_flush to the wrong parameters

---
 tianshou/utils/logger/wandb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/utils/logger/wandb.py b/tianshou/utils/logger/wandb.py
index 929bb39..327f4c0 100644
--- a/tianshou/utils/logger/wandb.py
+++ b/tianshou/utils/logger/wandb.py
@@ -110,8 +110,8 @@ class WandbLogger(BaseLogger):
             self.train_interval,
             self.test_interval,
             self.update_interval,
-            self.save_interval,
-            self.write_flush,
+            save_interval=self.save_interval,
+            write_flush=self.write_flush,
         )
 
     def write(self, step_type: str, step: int, data: dict[str, VALID_LOG_VALS_TYPE]) -> None:
-- 
2.43.0


From e139cca30f1207ac77ec2080a209ff47fdea2246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:48 +0000
Subject: [PATCH 072/102] fix: DiscreteCRRPolicy could not be saved as a whole
 because of a lambda

---
 tianshou/policy/imitation/discrete_crr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index b8d364d..24f62b9 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -24,6 +24,11 @@ class DiscreteCRRTrainingStats(PGTrainingStats):
 TDiscreteCRRTrainingStats = TypeVar("TDiscreteCRRTrainingStats", bound=DiscreteCRRTrainingStats)
 
 
+def _categorical_from_logits(logits: torch.Tensor) -> Categorical:
+    # module-level, so that policies can be pickled
+    return Categorical(logits=logits)
+
+
 class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
     r"""Implementation of discrete Critic Regularized Regression. arXiv:2006.15134.
 
@@ -75,7 +80,7 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
             actor=actor,
             optim=optim,
             action_space=action_space,
-            dist_fn=lambda x: Categorical(logits=x),
+            dist_fn=_categorical_from_logits,
             discount_factor=discount_factor,
             reward_normalization=reward_normalization,
             observation_space=observation_space,
-- 
2.43.0


From 3b45b19fc2d4e446166c060c8d0be191b7b0786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:46 +0000
Subject: [PATCH 073/102] fix: TRPOPolicy kept the last rejected step after a
 failed line search

The policy left the trust region (or became NaN for zero advantages) while
step size 0 was reported.
---
 tianshou/policy/modelfree/trpo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/trpo.py b/tianshou/policy/modelfree/trpo.py
index e7aa5cf..6c9b4b4 100644
--- a/tianshou/policy/modelfree/trpo.py
+++ b/tianshou/policy/modelfree/trpo.py
@@ -165,7 +165,7 @@ class TRPOPolicy(NPGPolicy[TTRPOTrainingStats]):
                         if i < self.max_backtracks - 1:
                             step_size = step_size * self.backtrack_coeff
                         else:
-                            self._set_from_flat_params(self.actor, new_flat_params)
+                            self._set_from_flat_params(self.actor, flat_params)
                             step_size = torch.tensor([0.0])
                             warnings.warn(
                                 "Line search failed! It seems hyperparamters"
-- 
2.43.0


From ba0abf6b67df69005940e9844941255461134893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 074/102] fix: PSRLPolicy added observed transitions to the
 caller's prior array

---
 tianshou/policy/modelbased/psrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelbased/psrl.py b/tianshou/policy/modelbased/psrl.py
index 8c13747..7d40529 100644
--- a/tianshou/policy/modelbased/psrl.py
+++ b/tianshou/policy/modelbased/psrl.py
@@ -44,7 +44,7 @@ class PSRLModel:
         discount_factor: float,
         epsilon: float,
     ) -> None:
-        self.trans_count = trans_count_prior
+        self.trans_count = trans_count_prior.copy()
         self.n_state, self.n_action = rew_mean_prior.shape
         self.rew_mean = rew_mean_prior
         self.rew_std = rew_std_prior
-- 
2.43.0


From ecd96798ac2b5be205ca31ce733f721c6d2c9b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 075/102] fix: PSRLPolicy could hang after an update with a
 non-zero prior reward mean

The variance estimate of rarely observed pairs became negative, the sampled
rewards NaN, and value iteration never ended.
---
 tianshou/policy/modelbased/psrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelbased/psrl.py b/tianshou/policy/modelbased/psrl.py
index 7d40529..c890b5c 100644
--- a/tianshou/policy/modelbased/psrl.py
+++ b/tianshou/policy/modelbased/psrl.py
@@ -87,7 +87,7 @@ class PSRLModel:
         sum_count = self.rew_count + rew_count
         self.rew_mean = (self.rew_mean * self.rew_count + rew_sum) / sum_count
         self.rew_square_sum += rew_square_sum
-        raw_std2 = self.rew_square_sum / sum_count - self.rew_mean**2
+        raw_std2 = np.maximum(self.rew_square_sum / sum_count - self.rew_mean**2, 0.0)
         self.rew_std = np.sqrt(
             1 / (sum_count / (raw_std2 + self.__eps) + 1 / self.rew_std_prior**2),
         )
-- 
2.43.0


From d129b89ac90fb0ff0c1d64508e04c569831aac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 076/102] fix: MultipleLRSchedulers.load_state_dict broke
 schedulers with functions or sub-schedulers

---
 tianshou/utils/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/lr_scheduler.py b/tianshou/utils/lr_scheduler.py
index 59890c7..2fc3513 100644
--- a/tianshou/utils/lr_scheduler.py
+++ b/tianshou/utils/lr_scheduler.py
@@ -37,4 +37,4 @@ class MultipleLRSchedulers:
             state_dict, in the same order as the schedulers.
         """
         for s, sd in zip(self.schedulers, state_dict, strict=True):
-            s.__dict__.update(sd)
+            s.load_state_dict(sd)
-- 
2.43.0


From 5cf8ebab8fa088b8e5aa5561b8fb73088ba29ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 077/102] fix: the linear learning rate schedule became
 negative after its last update

---
 tianshou/highlevel/params/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/params/lr_scheduler.py b/tianshou/highlevel/params/lr_scheduler.py
index 09c4c42..341615b 100644
--- a/tianshou/highlevel/params/lr_scheduler.py
+++ b/tianshou/highlevel/params/lr_scheduler.py
@@ -32,4 +32,4 @@ class LRSchedulerFactoryLinear(LRSchedulerFactory):
             )
 
         def compute(self, epoch: int) -> float:
-            return 1.0 - epoch / self.max_update_num
+            return max(0.0, 1.0 - epoch / self.max_update_num)
-- 
2.43.0


From 359faa4145cc783dd1b6bc19b72bc2aa325b20de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:57 +0000
Subject: [PATCH 078/102] fix: OUNoise restarted on every call when the size
 was given as a list

---
 tianshou/exploration/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/exploration/random.py b/tianshou/exploration/random.py
index a797a90..0be5155 100644
--- a/tianshou/exploration/random.py
+++ b/tianshou/exploration/random.py
@@ -73,10 +73,10 @@ class OUNoise(BaseNoise):
 
         Return an numpy array which size is equal to ``size``.
         """
-        if self._x is None or isinstance(self._x, np.ndarray) and self._x.shape != size:
+        r = self._beta * np.random.normal(size=size)
+        if self._x is None or isinstance(self._x, np.ndarray) and self._x.shape != r.shape:
             self._x = 0.0
         if mu is None:
             mu = self._mu
-        r = self._beta * np.random.normal(size=size)
         self._x = self._x + self._alpha * (mu - self._x) + r
         return self._x  # type: ignore
-- 
2.43.0


From 5194ab99901879eda448cdf64868884611b4421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:26 +0000
Subject: [PATCH 079/102] fix: Experiment.run never returned the result of the
 training

---
 tianshou/highlevel/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index c0be23d..721bc60 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -435,7 +435,7 @@ class Experiment(ToStringMixin, DataclassPPrintMixin):
                     )
 
                 log.info("Starting training")
-                world.trainer.run()
+                trainer_result = world.trainer.run()
                 if use_persistence:
                     world.logger.finalize()
                 log.info(f"Training result:\n{pformat(trainer_result)}")
-- 
2.43.0


From e5e19fd1413df187022944b96115df72fd53c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:26 +0000
Subject: [PATCH 080/102] fix: the high-level API ignored
 SamplingConfig.episode_per_collect

---
 tianshou/highlevel/agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/highlevel/agent.py b/tianshou/highlevel/agent.py
index 2ad5339..c855853 100644
--- a/tianshou/highlevel/agent.py
+++ b/tianshou/highlevel/agent.py
@@ -196,6 +196,7 @@ class OnPolicyAgentFactory(AgentFactory, ABC):
             episode_per_test=sampling_config.num_test_episodes,
             batch_size=sampling_config.batch_size,
             step_per_collect=sampling_config.step_per_collect,
+            episode_per_collect=sampling_config.episode_per_collect,
             save_best_fn=policy_persistence.get_save_best_fn(world),
             save_checkpoint_fn=policy_persistence.get_save_checkpoint_fn(world),
             logger=world.logger,
-- 
2.43.0


From 4311e386e97a7d4991c7ad87af5ea4fe4135ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:26 +0000
Subject: [PATCH 081/102] fix: ActorFactoryDefault ignored hidden sizes and
 activation for discrete actions

---
 tianshou/highlevel/module/actor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index 4a1fe5c..edec2ea 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -140,8 +140,9 @@ class ActorFactoryDefault(ActorFactory):
                     raise ValueError(self.continuous_actor_type)
         elif env_type == EnvType.DISCRETE:
             factory = ActorFactoryDiscreteNet(
-                self.DEFAULT_HIDDEN_SIZES,
+                self.hidden_sizes,
                 softmax_output=self.discrete_softmax,
+                activation=self.hidden_activation,
             )
         else:
             raise ValueError(f"{env_type} not supported")
-- 
2.43.0


From 997c89461840a45a1dd586aa72732057e5b0442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:26 +0000
Subject: [PATCH 082/102] fix: discrete SAC experiments took the softmax of
 their action probabilities

---
 tianshou/highlevel/experiment.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index 721bc60..fca615f 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -694,8 +694,9 @@ class RandomActionExperimentBuilder(ExperimentBuilder):
 
 
 class _BuilderMixinActorFactory(ActorFutureProviderProtocol):
-    def __init__(self, continuous_actor_type: ContinuousActorType):
+    def __init__(self, continuous_actor_type: ContinuousActorType, discrete_softmax: bool = True):
         self._continuous_actor_type = continuous_actor_type
+        self._discrete_softmax = discrete_softmax
         self._actor_future = ActorFuture()
         self._actor_factory: ActorFactory | None = None
 
@@ -731,6 +732,7 @@ class _BuilderMixinActorFactory(ActorFutureProviderProtocol):
             hidden_activation=hidden_activation,
             continuous_unbounded=continuous_unbounded,
             continuous_conditioned_sigma=continuous_conditioned_sigma,
+            discrete_softmax=self._discrete_softmax,
         )
         return self
 
@@ -741,7 +743,10 @@ class _BuilderMixinActorFactory(ActorFutureProviderProtocol):
     def _get_actor_factory(self) -> ActorFactory:
         actor_factory: ActorFactory
         if self._actor_factory is None:
-            actor_factory = ActorFactoryDefault(self._continuous_actor_type)
+            actor_factory = ActorFactoryDefault(
+                self._continuous_actor_type,
+                discrete_softmax=self._discrete_softmax,
+            )
         else:
             actor_factory = self._actor_factory
         return ActorFactoryTransientStorageDecorator(actor_factory, self._actor_future)
@@ -805,7 +810,8 @@ class _BuilderMixinActorFactory_DiscreteOnly(_BuilderMixinActorFactory):
     """Specialization of the actor mixin where only environments with discrete action spaces are supported."""
 
     def __init__(self) -> None:
-        super().__init__(ContinuousActorType.UNSUPPORTED)
+        # the policies using this mixin expect the actor to output logits
+        super().__init__(ContinuousActorType.UNSUPPORTED, discrete_softmax=False)
 
     def with_actor_factory_default(
         self,
-- 
2.43.0


From f4699c475476380e8150961e8a2b47f10a305318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:26 +0000
Subject: [PATCH 083/102] fix: experiments in a seeded collection used the same
 environment seeds

---
 tianshou/highlevel/experiment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index fca615f..11aa623 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -55,7 +55,7 @@ from tianshou.highlevel.agent import (
     TRPOAgentFactory,
 )
 from tianshou.highlevel.config import SamplingConfig
-from tianshou.highlevel.env import EnvFactory
+from tianshou.highlevel.env import EnvFactory, EnvFactoryRegistered
 from tianshou.highlevel.logger import LoggerFactory, LoggerFactoryDefault, TLogger
 from tianshou.highlevel.module.actor import (
     ActorFactory,
@@ -679,6 +679,9 @@ class ExperimentBuilder(ABC):
             builder = self.copy()
             builder.experiment_config.seed += i
             builder.sampling_config.train_seed += i * num_train_envs
+            if isinstance(builder._env_factory, EnvFactoryRegistered):
+                builder._env_factory.train_seed += i * num_train_envs
+                builder._env_factory.test_seed += i * num_train_envs
             experiment = builder.build()
             experiment.name += f"_{experiment.get_seeding_info_as_str()}"
             seeded_experiments.append(experiment)
-- 
2.43.0


From 42e322aaccb0f9217bc16921a3e8658b7bb42d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:41 +0000
Subject: [PATCH 084/102] fix: restored or copied experiments lost the link
 between actor and critic

---
 tianshou/highlevel/module/actor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index edec2ea..8cf036d 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -41,6 +41,10 @@ class ActorFuture:
 
     actor: BaseActor | nn.Module | None = None
 
+    def __getstate__(self) -> dict:
+        # the actor instance is transient, only the identity of the future is to be preserved
+        return {"actor": None}
+
 
 class ActorFutureProviderProtocol(Protocol):
     def get_actor_future(self) -> ActorFuture:
@@ -269,14 +273,10 @@ class ActorFactoryTransientStorageDecorator(ActorFactory):
         self.actor_factory = actor_factory
         self._actor_future = actor_future
 
-    def __getstate__(self) -> dict:
-        d = dict(self.__dict__)
-        del d["_actor_future"]
-        return d
-
     def __setstate__(self, state: dict) -> None:
         self.__dict__ = state
-        self._actor_future = ActorFuture()
+        # state stored by earlier versions does not include the future
+        self.__dict__.setdefault("_actor_future", ActorFuture())
 
     def _tostring_excludes(self) -> list[str]:
         return [*super()._tostring_excludes(), "_actor_future"]
-- 
2.43.0


From 5e69dc5ddef273213dc2ea40f10e075dcaca1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 085/102] fix: REDQPolicy could not tune its entropy
 temperature automatically

The update read attributes that no longer exist (_target_entropy, _log_alpha),
so every actor update with an automatic alpha raised AttributeError; the
reported alpha_loss would also have been a tensor, which the statistics of
several updates cannot aggregate.
---
 tianshou/policy/modelfree/redq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/modelfree/redq.py b/tianshou/policy/modelfree/redq.py
index 25f2997..92f8186 100644
--- a/tianshou/policy/modelfree/redq.py
+++ b/tianshou/policy/modelfree/redq.py
@@ -217,8 +217,8 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             self.actor_optim.step()
 
             if self.is_auto_alpha:
-                log_prob = obs_result.log_prob.detach() + self._target_entropy
-                alpha_loss = -(self._log_alpha * log_prob).mean()
+                log_prob = obs_result.log_prob.detach() + self.target_entropy
+                alpha_loss = -(self.log_alpha * log_prob).mean()
                 self.alpha_optim.zero_grad()
                 alpha_loss.backward()
                 self.alpha_optim.step()
@@ -235,5 +235,5 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             actor_loss=self._last_actor_loss,
             critic_loss=critic_loss.item(),
             alpha=self.alpha.item() if isinstance(self.alpha, torch.Tensor) else self.alpha,
-            alpha_loss=alpha_loss,
+            alpha_loss=None if alpha_loss is None else alpha_loss.item(),
         )
-- 
2.43.0


From b0123ce2f555e476c5c18e8ed689f3ed57991d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 086/102] fix: several algorithms did not bootstrap where an
 episode was only cut off

BDQ, discrete CRR, BCQ and CQL treated truncated transitions (and BDQ also the
newest transition of an open episode) as terminal states in their one-step
targets, unlike compute_nstep_return, which bootstraps unless terminated.
---
 tianshou/policy/imitation/bcq.py          | 2 +-
 tianshou/policy/imitation/cql.py          | 2 +-
 tianshou/policy/imitation/discrete_crr.py | 2 +-
 tianshou/policy/modelfree/bdq.py          | 5 +----
 4 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 2addd23..6d16772 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -201,7 +201,7 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
 
             target_Q = (
                 batch.rew.reshape(-1, 1)
-                + torch.logical_not(batch.done).reshape(-1, 1) * self.gamma * target_Q
+                + torch.logical_not(batch.terminated).reshape(-1, 1) * self.gamma * target_Q
             )
             target_Q = target_Q.float()
 
diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 1640151..f8d3b91 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -283,7 +283,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
 
             target_Q = torch.min(target_Q1, target_Q2) - self.alpha * new_log_pi
 
-            target_Q = rew + torch.logical_not(batch.done) * self.gamma * target_Q.flatten()
+            target_Q = rew + torch.logical_not(batch.terminated) * self.gamma * target_Q.flatten()
             target_Q = target_Q.float()
             # shape: (batch_size)
 
diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index 24f62b9..52cd5a4 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -135,7 +135,7 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
             q_t_target = self.critic_old(batch.obs_next)
             rew = to_torch_as(batch.rew, q_t_target)
             expected_target_q = (q_t_target * target_m.probs).sum(-1, keepdim=True)
-            expected_target_q[batch.done > 0] = 0.0
+            expected_target_q[batch.terminated > 0] = 0.0
             target = rew.unsqueeze(1) + self.gamma * expected_target_q
         critic_loss = 0.5 * F.mse_loss(qa_t, target)
         # Actor loss
diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index 48f6fc7..5a26e5f 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -124,11 +124,8 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         with torch.no_grad():
             target_q_torch = self._target_q(buffer, indice)  # (bsz, ?)
         target_q = to_numpy(target_q_torch)
-        end_flag = buffer.done.copy()
-        end_flag[buffer.unfinished_index()] = True
-        end_flag = end_flag[indice]
         mean_target_q = np.mean(target_q, -1) if len(target_q.shape) > 1 else target_q
-        _target_q = rew + gamma * mean_target_q * (1 - end_flag)
+        _target_q = rew + gamma * mean_target_q * self.value_mask(buffer, indice)
         target_q = np.repeat(_target_q[..., None], self.num_branches, axis=-1)
         target_q = np.repeat(target_q[..., None], self._action_per_branch, axis=-1)
 
-- 
2.43.0


From 29374b2bb55d5d2a6270b6721c9ba2a4f1b967c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 087/102] fix: CQLPolicy drew its random actions from an empty
 interval

The lower bound was negated, so with the default range [-1, 1] all random
actions were equal to max_action.
---
 tianshou/policy/imitation/cql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index f8d3b91..1553806 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -298,7 +298,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
         # CQL
         random_actions = (
             torch.FloatTensor(batch_size * self.num_repeat_actions, act.shape[-1])
-            .uniform_(-self.min_action, self.max_action)
+            .uniform_(self.min_action, self.max_action)
             .to(self.device)
         )
 
-- 
2.43.0


From 7538d4c4a7b990fb6e84be561a41ab6e5771eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 088/102] fix: CQLPolicy's penalty did not aggregate over the
 sampled actions

The result of reshape was dropped, so the log-sum-exp ran over three values per
sample instead of over all 3 * num_repeat_actions of a state.
---
 tianshou/policy/imitation/cql.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 1553806..0361ffc 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -314,16 +314,6 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
 
         random_value1, random_value2 = self.calc_random_values(tmp_obs, random_actions)
 
-        for value in [
-            current_pi_value1,
-            current_pi_value2,
-            next_pi_value1,
-            next_pi_value2,
-            random_value1,
-            random_value2,
-        ]:
-            value.reshape(batch_size, self.num_repeat_actions, 1)
-
         if self.calibrated:
             returns = (
                 batch.calibration_returns.unsqueeze(1)
@@ -342,8 +332,15 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
             next_pi_value2 = torch.max(next_pi_value2, returns)
 
         # cat q values
-        cat_q1 = torch.cat([random_value1, current_pi_value1, next_pi_value1], 1)
-        cat_q2 = torch.cat([random_value2, current_pi_value2, next_pi_value2], 1)
+        q_shape = (batch_size, self.num_repeat_actions, 1)
+        cat_q1 = torch.cat(
+            [v.reshape(q_shape) for v in (random_value1, current_pi_value1, next_pi_value1)],
+            1,
+        )
+        cat_q2 = torch.cat(
+            [v.reshape(q_shape) for v in (random_value2, current_pi_value2, next_pi_value2)],
+            1,
+        )
         # shape: (batch_size, 3 * num_repeat, 1)
 
         cql1_scaled_loss = (
-- 
2.43.0


From a3a9e01d6faae55b2adaa0b38d942f20d8525466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 089/102] fix: BCQPolicy did not perturb the actions of its
 targets

The target of the perturbation network was maintained but never used: the
next-state actions came from the VAE alone.
---
 tianshou/policy/imitation/bcq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 6d16772..bb7a2ad 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -183,7 +183,7 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
             # now obs_next: (num_sampled_action * batch_size, state_dim)
 
             # perturbed action generated by VAE
-            act_next = self.vae.decode(obs_next)
+            act_next = self.actor_perturbation_target(obs_next, self.vae.decode(obs_next))
             # now obs_next: (num_sampled_action * batch_size, action_dim)
             target_Q1 = self.critic_target(obs_next, act_next)
             target_Q2 = self.critic2_target(obs_next, act_next)
-- 
2.43.0


From 07fb27b9b197a2fe642156bfed6573937f5341e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:52 +0000
Subject: [PATCH 090/102] fix: BranchingDQNPolicy ignored its discount factor

process_fn did not pass it on, so the default 0.99 of the helper was used.
---
 tianshou/policy/modelfree/bdq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index 5a26e5f..27b914b 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -141,7 +141,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         indices: np.ndarray,
     ) -> BatchWithReturnsProtocol:
         """Compute the 1-step return for BDQ targets."""
-        return self._compute_return(batch, buffer, indices)
+        return self._compute_return(batch, buffer, indices, self.gamma)
 
     def forward(
         self,
-- 
2.43.0


From b90e51b8c6adc78cc8a0bcad844f89cb30499ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:34 +0000
Subject: [PATCH 091/102] fix: merging a hindsight buffer into another made the
 relabelled goals permanent

---
 tianshou/data/buffer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 6477d81..eab2870 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -339,6 +339,9 @@ class ReplayBuffer:
             buf.stack_num = stack_num
         if len(from_indices) == 0:
             return np.array([], int)
+        if hasattr(buffer, "_restore_cache"):
+            # hindsight relabelling is temporary, the data to be moved is the original one
+            buffer._restore_cache()
         updated_indices = []
         for _ in range(len(from_indices)):
             updated_indices.append(self._insertion_idx)
-- 
2.43.0


From 6d256769bef7d44dfca7addfb5159cd9d8e05b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:18 +0000
Subject: [PATCH 092/102] fix: Collector raised on NaNs in the buffer even with
 raise_on_nan_in_buffer=False

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 121e8f9..9045fbc 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1043,7 +1043,7 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
                 break
 
         # Check if we screwed up somewhere
-        if self.buffer.hasnull():
+        if self.raise_on_nan_in_buffer and self.buffer.hasnull():
             nan_batch = self.buffer.isnull().apply_values_transform(np.sum)
 
             raise MalformedBufferError(
-- 
2.43.0


From 2331b2f6c9a6fb6aa3a23d11d34168d9591a0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:29 +0000
Subject: [PATCH 093/102] fix: seed() of worker processes did not report the
 seeds, and ray workers did not seed the action space

---
 tianshou/env/worker/ray.py     | 13 ++++++++-----
 tianshou/env/worker/subproc.py |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/tianshou/env/worker/ray.py b/tianshou/env/worker/ray.py
index 25e929e..5f9ba72 100644
--- a/tianshou/env/worker/ray.py
+++ b/tianshou/env/worker/ray.py
@@ -22,6 +22,13 @@ class _SetAttrWrapper(gym.Wrapper):
     def get_env_attr(self, key: str) -> Any:
         return getattr(self.env, key)
 
+    def seed(self, seed: int | None = None) -> list[int] | None:
+        if hasattr(self.env, "seed"):
+            return self.env.seed(seed)
+        self.env.action_space.seed(seed)
+        self.env.reset(seed=seed)
+        return [seed]  # type: ignore
+
 
 class RayEnvWorker(EnvWorker):
     """Ray worker used in RayVectorEnv."""
@@ -70,11 +77,7 @@ class RayEnvWorker(EnvWorker):
 
     def seed(self, seed: int | None = None) -> list[int] | None:
         super().seed(seed)
-        try:
-            return ray.get(self.env.seed.remote(seed))
-        except (AttributeError, NotImplementedError):
-            self.env.reset.remote(seed=seed)
-            return None
+        return ray.get(self.env.seed.remote(seed))
 
     def render(self, **kwargs: Any) -> Any:
         return ray.get(self.env.render.remote(**kwargs))
diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index 54508e6..61fb50f 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -128,7 +128,7 @@ def _worker(
                 else:
                     env.action_space.seed(seed=data)
                     env.reset(seed=data)
-                    p.send(None)
+                    p.send([data])
             elif cmd == "getattr":
                 p.send(getattr(env, data) if hasattr(env, data) else None)
             elif cmd == "setattr":
-- 
2.43.0


From 553464dd4eab6ebc174c6fff8c156d0c39eca9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:47 +0000
Subject: [PATCH 094/102] fix: networks without output_dim could not be used
 although their output dimension was given

---
 tianshou/utils/net/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/net/common.py b/tianshou/utils/net/common.py
index 243a040..f21853d 100644
--- a/tianshou/utils/net/common.py
+++ b/tianshou/utils/net/common.py
@@ -698,7 +698,7 @@ def getattr_with_matching_alt_value(obj: Any, attr_name: str, alt_value: T | Non
         if the attribute is not present
     :return: the value
     """
-    v = getattr(obj, attr_name)
+    v = getattr(obj, attr_name, None)
     if v is not None:
         if alt_value is not None and v != alt_value:
             raise ValueError(
-- 
2.43.0


From 1f9d9ddc38ed5d2729bd3d1967ced1cf3a02abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:47 +0000
Subject: [PATCH 095/102] fix: ActorProb did not return the hidden state of a
 recurrent preprocessing network

---
 tianshou/utils/net/continuous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/net/continuous.py b/tianshou/utils/net/continuous.py
index 3ffdd1a..54101ae 100644
--- a/tianshou/utils/net/continuous.py
+++ b/tianshou/utils/net/continuous.py
@@ -258,7 +258,7 @@ class ActorProb(BaseActor):
             shape = [1] * len(mu.shape)
             shape[1] = -1
             sigma = (self.sigma_param.view(shape) + torch.zeros_like(mu)).exp()
-        return (mu, sigma), state
+        return (mu, sigma), hidden
 
 
 class RecurrentActorProb(nn.Module):
-- 
2.43.0


From 2793b16f9f6390e91dbabd1a773975b87de1aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:47 +0000
Subject: [PATCH 096/102] fix: get_dict_state_decorator failed on single
 observations of differing or scalar shapes

---
 tianshou/utils/net/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tianshou/utils/net/common.py b/tianshou/utils/net/common.py
index f21853d..b3599b1 100644
--- a/tianshou/utils/net/common.py
+++ b/tianshou/utils/net/common.py
@@ -591,10 +591,11 @@ def get_dict_state_decorator(
 
     def preprocess_obs(obs: Batch | dict | torch.Tensor | np.ndarray) -> torch.Tensor:
         if isinstance(obs, dict) or (isinstance(obs, Batch) and keys[0] in obs):
-            if original_shape[keys[0]] == obs[keys[0]].shape:
+            if tuple(np.atleast_1d(original_shape[keys[0]])) == tuple(obs[keys[0]].shape):
                 # No batch dim
-                new_obs = torch.Tensor([obs[k] for k in keys]).flatten()
-                # new_obs = torch.Tensor([obs[k] for k in keys]).reshape(1, -1)
+                new_obs = torch.cat(
+                    [torch.as_tensor(obs[k], dtype=torch.float32).flatten() for k in keys],
+                )
             else:
                 bsz = obs[keys[0]].shape[0]
                 new_obs = torch.cat([torch.Tensor(obs[k].reshape(bsz, -1)) for k in keys], dim=1)
-- 
2.43.0


From 73c5c1d2dce6cd16a19264db3d6c8f5e82a9eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:08 +0000
Subject: [PATCH 097/102] fix: logged runs with further statistics
 (distribution deviations) could not be loaded for evaluation

---
 tianshou/evaluation/rliable_evaluation_hl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tianshou/evaluation/rliable_evaluation_hl.py b/tianshou/evaluation/rliable_evaluation_hl.py
index 2b8ff51..bd87b07 100644
--- a/tianshou/evaluation/rliable_evaluation_hl.py
+++ b/tianshou/evaluation/rliable_evaluation_hl.py
@@ -45,12 +45,12 @@ class LoggedCollectStats:
         Converts SequenceSummaryStats from dict format to dataclass format and ignores fields that are not present.
         """
         field_names = [f.name for f in fields(cls)]
+        kwargs = {}
         for k, v in data.items():
             if k not in field_names:
-                data.pop(k)
-            if isinstance(v, dict):
-                data[k] = LoggedSummaryData(**v)
-        return cls(**data)
+                continue
+            kwargs[k] = LoggedSummaryData(**v) if isinstance(v, dict) else v
+        return cls(**kwargs)
 
 
 @dataclass
-- 
2.43.0


From 672dc4ff7abeb1ec428144e118799656aa700431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:08 +0000
Subject: [PATCH 098/102] fix: runs whose log contains no training data could
 not be loaded for evaluation

---
 tianshou/evaluation/rliable_evaluation_hl.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tianshou/evaluation/rliable_evaluation_hl.py b/tianshou/evaluation/rliable_evaluation_hl.py
index bd87b07..3124a90 100644
--- a/tianshou/evaluation/rliable_evaluation_hl.py
+++ b/tianshou/evaluation/rliable_evaluation_hl.py
@@ -129,7 +129,7 @@ class RLiableExperimentResult:
             if DataScope.TEST not in data or not data[DataScope.TEST]:
                 continue
             restored_test_data = data[DataScope.TEST]
-            restored_train_data = data[DataScope.TRAIN]
+            restored_train_data = data.get(DataScope.TRAIN, {})
 
             assert isinstance(restored_test_data, dict)
             assert isinstance(restored_train_data, dict)
@@ -167,15 +167,17 @@ class RLiableExperimentResult:
         if not test_data_found and not train_data_found:
             raise RuntimeError(f"No test or train data found in {exp_dir}.")
 
-        min_train_len = min([len(arr) for arr in train_episode_returns])
+        min_train_len = min([len(arr) for arr in train_episode_returns], default=0)
         if max_env_step is not None:
             min_train_len = min(min_train_len, max_env_step)
-        min_test_len = min([len(arr) for arr in test_episode_returns])
+        min_test_len = min([len(arr) for arr in test_episode_returns], default=0)
         if max_env_step is not None:
             min_test_len = min(min_test_len, max_env_step)
 
-        assert env_step_at_test is not None
-        assert env_step_at_train is not None
+        if env_step_at_test is None:
+            env_step_at_test = np.array([])
+        if env_step_at_train is None:
+            env_step_at_train = np.array([])
 
         env_step_at_test = env_step_at_test[:min_test_len]
         env_step_at_train = env_step_at_train[:min_train_len]
-- 
2.43.0


From 15a91f6f050eccc471d79ed50db72a62ce372461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:08 +0000
Subject: [PATCH 099/102] fix: evaluating both scopes always showed and saved
 the plots

---
 tianshou/evaluation/rliable_evaluation_hl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/evaluation/rliable_evaluation_hl.py b/tianshou/evaluation/rliable_evaluation_hl.py
index 3124a90..a503551 100644
--- a/tianshou/evaluation/rliable_evaluation_hl.py
+++ b/tianshou/evaluation/rliable_evaluation_hl.py
@@ -352,7 +352,7 @@ def load_and_eval_experiments(
     rliable_result = RLiableExperimentResult.load_from_disk(log_dir, max_env_step=max_env_step)
     if scope == "both":
         for scope in [DataScope.TEST, DataScope.TRAIN]:
-            rliable_result.eval_results(show_plots=True, save_plots=True, scope=scope)
+            rliable_result.eval_results(show_plots=show_plots, save_plots=save_plots, scope=scope)
     else:
         rliable_result.eval_results(show_plots=show_plots, save_plots=save_plots, scope=scope)
     return rliable_result
-- 
2.43.0


From 92d4b1356963af1e6bf8aea4c9fce088b591f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:32 +0000
Subject: [PATCH 100/102] fix: the curiosity wrapper of high-level experiments
 rejected every discrete action space

---
 tianshou/highlevel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/env.py b/tianshou/highlevel/env.py
index e61e0ed..af4d98d 100644
--- a/tianshou/highlevel/env.py
+++ b/tianshou/highlevel/env.py
@@ -280,7 +280,7 @@ class DiscreteEnvironments(Environments):
     ):
         super().__init__(env, train_envs, test_envs, watch_env)
         self.observation_shape = env.observation_space.shape or env.observation_space.n  # type: ignore
-        self.action_shape = env.action_space.shape or env.action_space.n  # type: ignore
+        self.action_shape = env.action_space.shape or int(env.action_space.n)  # type: ignore
 
     @staticmethod
     def from_factory(
-- 
2.43.0


From f53114af30fbf546933be04086a896625e23bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:36 +0000
Subject: [PATCH 101/102] fix: a collection failed on an episode that exactly
 fills its sub-buffer

---
 tianshou/data/buffer/base.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index eab2870..91450f2 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -117,7 +117,7 @@ class ReplayBuffer:
         start: int,
         stop: int,
     ) -> tuple[tuple[int, int], tuple[int, int]]:
-        """Assumes that stop < start and retrieves tuples corresponding to the two
+        """Assumes that stop <= start and retrieves tuples corresponding to the two
         slices that determine the interval within the buffer.
 
         Example:
@@ -131,15 +131,10 @@ class ReplayBuffer:
         The buffer sliced from 4 to 5 and then from 0 to 2 will contain the transitions
         corresponding to the provided start and stop values.
         """
-        if stop >= start:
+        if stop > start:
             raise ValueError(
-                f"Expected stop < start, but got {start=}, {stop=}. "
-                f"For stop larger than start this method should never be called, "
-                f"and stop=start should never occur. This can occur either due to an implementation error, "
-                f"or due a bad configuration of the buffer that resulted in a single episode being so long that "
-                f"it completely filled a subbuffer (of size len(buffer)/degree_of_vectorization). "
-                f"Consider either shortening the episode, increasing the size of the buffer, or decreasing the "
-                f"degree of vectorization.",
+                f"Expected stop <= start, but got {start=}, {stop=}. "
+                f"For stop larger than start this method should never be called.",
             )
         subbuffer_edges = cast(Sequence[int], self.subbuffer_edges)
 
@@ -165,6 +160,7 @@ class ReplayBuffer:
 
         The special thing about this is that stop may actually be smaller than start,
         since one often is interested in a sequence of transitions that goes over a subbuffer edge.
+        If stop equals start, the sequence fills the entire subbuffer.
 
         The main use case for this method is to retrieve an episode from the buffer, in which case
         start is the index of the first transition in the episode and stop is the index where `done` is True + 1.
@@ -186,6 +182,8 @@ class ReplayBuffer:
         [4, 0, 1]
         >>> buffer.get_buffer_indices(start=8, stop=7)
         [8, 9, 5, 6]
+        >>> buffer.get_buffer_indices(start=2, stop=2)
+        [2, 3, 4, 0, 1]
         >>> buffer.get_buffer_indices(start=1, stop=6)
         ValueError: Start and stop indices must be within the same subbuffer.
         >>> buffer.get_buffer_indices(start=8, stop=1)
-- 
2.43.0


From 1b7cd98660cab5db8a55ecbdd2947ee89f21198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:13 +0000
Subject: [PATCH 102/102] fix: the reported start of an episode longer than its
 buffer was not where the remaining part of it starts

---
 tianshou/data/buffer/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 91450f2..9216829 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -373,9 +373,14 @@ class ReplayBuffer:
         3. the episode start index.
         """
         self.last_index[0] = cur_insertion_idx = self._insertion_idx
+        is_overwriting = self._size == self.maxsize
         self._size = min(self._size + 1, self.maxsize)
         self._insertion_idx = (self._insertion_idx + 1) % self.maxsize
 
+        if is_overwriting and self._ep_len > 0 and cur_insertion_idx == self._ep_start_idx:
+            # the episode overwrites its own start, its oldest stored transition is the next one
+            self._ep_start_idx = self._insertion_idx
+
         self._ep_return += rew  # type: ignore
         self._ep_len += 1
 
-- 
2.43.0

