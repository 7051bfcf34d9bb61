From 1c5978c726dc7c5f201504a8db09876abf6e311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 01/47] fix: consume remaining input after a failure so other
 consumers do not hang

A node which fails, or is told of a failure, stopped consuming its input.
An input node shared with another consumer then blocked for ever on the
full queue, starving that consumer and hanging the evaluation.
---
 biggus/_init.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index cd78b54..af7b61e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -250,6 +250,19 @@ class ConsumerNode(Node):
         """Process one chunk from each input node."""
         pass
 
+    def _discard_input(self, last_chunks):
+        # Consume whatever the input nodes have yet to send. Otherwise an
+        # input node could block for ever on one of our (full) queues,
+        # which would also starve any other consumer of that node.
+        # This is done in lock-step, as in `run`, for the same reason.
+        live = list(zip(self.input_queues, last_chunks))
+        while live:
+            live = [(input, input.get()) for input, chunk in live
+                    if chunk is not QUEUE_FINISHED and
+                    chunk is not QUEUE_ABORT]
+            for input, _ in live:
+                input.task_done()
+
     def run(self):
         """
         Process the input queues in lock-step, and push any results to
@@ -263,6 +276,7 @@ class ConsumerNode(Node):
                     input.task_done()
                 if any(chunk is QUEUE_ABORT for chunk in input_chunks):
                     self.abort()
+                    self._discard_input(input_chunks)
                     return
                 if any(chunk is QUEUE_FINISHED for chunk in input_chunks):
                     break
@@ -272,6 +286,7 @@ class ConsumerNode(Node):
             self.output(self.finalise())
         except:
             self.abort()
+            self._discard_input(input_chunks)
             raise
         else:
             for queue in self.output_queues:
-- 
2.43.0


From 630c492ddb794a65d2e763bd55b943660ba65d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 02/47] fix: do not leave result threads waiting when a node
 cannot be created

---
 biggus/_init.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index af7b61e..ab66af1 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -422,9 +422,13 @@ class AllThreadedEngine(Engine):
                 node = self._make_node(array, iteration_order, masked)
                 result_node = NdarrayNode(array, masked)
                 result_node.add_input_nodes([node])
-                result_threads.append(result_node.thread())
                 result_nodes.append(result_node)
 
+            # Start up all the result threads. This has to wait until all
+            # the nodes exist, because creating a node can fail.
+            for result_node in result_nodes:
+                result_threads.append(result_node.thread())
+
             # Start up all the producer/computation threads.
             for node in six.itervalues(self._node_cache):
                 node.thread()
-- 
2.43.0


From 0f2c78d8c2634e479c763d9876c840f1cced3550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 03/47] fix: do not combine differently chunked arrays in
 lock-step

An aggregation is produced in chunks which depend on the shape of the
array it aggregates. Combining it elementwise with an array which is
chunked differently paired up unrelated chunks, so gave a wrong result or
an error.
---
 biggus/_init.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index ab66af1..5c39f13 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -377,15 +377,41 @@ class AllThreadedEngine(Engine):
             self.arrays = arrays
             self.indices = indices
             self._node_cache = {}
+            self._chunking_cache = {}
 
         def __repr__(self):
             return 'Group({}, {})'.format(self.arrays, self.indices)
 
+        def _chunking(self, array):
+            # Return the slices of each dimension which define the chunks
+            # of the given array.
+            chunking = self._chunking_cache.get(id(array), None)
+            if chunking is None:
+                if self._is_streamable(array):
+                    chunking = self._chunking(array.sources[0])
+                    if isinstance(array, _Aggregation):
+                        chunking = (chunking[:array._axis] +
+                                    chunking[array._axis + 1:])
+                else:
+                    chunking = _all_slices_inner(array.shape,
+                                                 always_slices=True)
+                self._chunking_cache[id(array)] = chunking
+            return chunking
+
+        def _is_streamable(self, array):
+            # Sources can only be processed in lock-step if they have the
+            # same chunks. This might not be so for an aggregation, since
+            # its chunks depend on the shape of the array it aggregates.
+            if not hasattr(array, 'streams_handler'):
+                return False
+            chunkings = [self._chunking(source) for source in array.sources]
+            return all(chunking == chunkings[0] for chunking in chunkings)
+
         def _make_node(self, array, iteration_order, masked):
             cache_key = id(array)
             node = self._node_cache.get(cache_key, None)
             if node is None:
-                if hasattr(array, 'streams_handler'):
+                if self._is_streamable(array):
                     node = StreamsHandlerNode(array,
                                               array.streams_handler(masked))
                     iteration_order = node.input_iteration_order(
-- 
2.43.0


From e9e85e6395f42e8438c666df309e864fc350e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 04/47] fix: do not share a node between consumers needing
 different chunk orders

Evaluating, for example, the sums of an array over two different axes
together gave one of them its chunks in the order of the other, and so
gave the wrong result, or hung.
---
 biggus/_init.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5c39f13..d10d38c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -408,7 +408,11 @@ class AllThreadedEngine(Engine):
             return all(chunking == chunkings[0] for chunking in chunkings)
 
         def _make_node(self, array, iteration_order, masked):
-            cache_key = id(array)
+            # A node can only be shared by consumers which need its chunks
+            # in the same order.
+            chunking = self._chunking(array)
+            cache_key = (id(array), tuple(i for i in iteration_order
+                                          if len(chunking[i]) > 1))
             node = self._node_cache.get(cache_key, None)
             if node is None:
                 if self._is_streamable(array):
-- 
2.43.0


From 6557591f00e78109226599f6275092fa958c7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 05/47] fix: take account of every chunk in min and max

Only the last chunk along the axis of aggregation had any effect.
---
 biggus/_init.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d10d38c..a8dd6b3 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2378,7 +2378,7 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
 
 class _MinStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2389,15 +2389,18 @@ class _MinStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        result = np.min(data, axis=self.axis)
+        if self.result is not None:
+            result = np.minimum(self.result, result)
+        self.result = result
 
 
 class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
-        array = self.result
+        array = np.min(self.result, axis=self.axis)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.ma.array(array)
@@ -2405,12 +2408,15 @@ class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        # NB. Keeping the axis avoids having to deal with `ma.masked`.
+        if self.result is not None:
+            data = np.ma.concatenate([self.result, data], axis=self.axis)
+        self.result = np.min(data, axis=self.axis, keepdims=True)
 
 
 class _MaxStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2421,15 +2427,18 @@ class _MaxStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        result = np.max(data, axis=self.axis)
+        if self.result is not None:
+            result = np.maximum(self.result, result)
+        self.result = result
 
 
 class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
-        array = self.result
+        array = np.max(self.result, axis=self.axis)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.ma.array(array)
@@ -2437,7 +2446,10 @@ class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        # NB. Keeping the axis avoids having to deal with `ma.masked`.
+        if self.result is not None:
+            data = np.ma.concatenate([self.result, data], axis=self.axis)
+        self.result = np.max(data, axis=self.axis, keepdims=True)
 
 
 class _SumStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 44221b58130b9c9ad7e63a57b49a527c223c708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 06/47] fix: compute std and var correctly when the first chunk
 has one element

If the first chunk had just a single element along the axis of aggregation
then the next chunk was mistaken for the first one.
---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a8dd6b3..25aac1f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2562,7 +2562,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         super(_StdStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.k = 1
+        self.k = 0
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
@@ -2578,7 +2578,8 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         data = np.rollaxis(data, self.axis).astype(self._dtype)
 
-        if self.k == 1:
+        if self.k == 0:
+            self.k = 1
             self.a = data[0]
             data = data[1:]
 
-- 
2.43.0


From 22adbc2eac668cc9c40e98b9cb7a40f898654114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 07/47] fix: compute masked sums of arrays without a mask

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 25aac1f..7defe1b 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2486,8 +2486,8 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.mask &= np.all(data.mask, axis=self.axis)
-        self.running_total += np.sum(data.filled(0), axis=self.axis)
+        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
+        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
 
 
 class _MeanStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 68967d3e5a0903661f0142aef288c9d9ffd31661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 08/47] fix: accumulate means in the dtype of the result

---
 biggus/_init.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 7defe1b..08f0f55 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2499,8 +2499,9 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         super(_MeanStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self.array.dtype)
+        # Accumulate in the dtype of the result, to avoid overflow.
+        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.running_total = np.zeros(processed_chunk_shape, dtype=dtype)
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
@@ -2511,7 +2512,8 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2521,14 +2523,17 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         shape = processed_chunk_shape
-        self.running_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_masked_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_total = np.zeros(shape, dtype=self.array.dtype)
+        # Accumulate in the dtype of the result, to avoid overflow.
+        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.running_count = np.zeros(shape, dtype=int)
+        self.running_masked_count = np.zeros(shape, dtype=int)
+        self.running_total = np.zeros(shape, dtype=dtype)
 
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
         mask = self.running_count == 0
-        denominator = np.ma.array(self.running_count, mask=mask, dtype=float)
+        denominator = np.ma.array(self.running_count, mask=mask,
+                                  dtype=self.running_total.dtype)
         array = np.ma.array(self.running_total, mask=mask) / denominator
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
@@ -2546,7 +2551,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 24f2e9320844ed67b2a3bebdd256b5d6cf8e2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 09/47] fix: compute the masked mean when all elements are
 masked

---
 biggus/_init.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 08f0f55..9c21498 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2532,18 +2532,18 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
         mask = self.running_count == 0
-        denominator = np.ma.array(self.running_count, mask=mask,
-                                  dtype=self.running_total.dtype)
-        array = np.ma.array(self.running_total, mask=mask) / denominator
-        # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.ma.array(array)
+        denominator = np.where(mask, 1, self.running_count)
+        # NB. Applying the mask to the quotient gives a (0-dimensional) array
+        # of the right dtype instead of `ma.masked` when all is masked.
+        array = np.true_divide(self.running_total, denominator,
+                               dtype=self.running_total.dtype)
+        array = np.ma.array(array, mask=mask)
         # Apply masked/missing data threshold (mdtol).
         if self._mdtol < 1:
             mask_update = np.true_divide(self.running_masked_count,
                                          self.running_masked_count +
                                          self.running_count) > self._mdtol
-            array.mask |= mask_update
+            array.mask = mask | mask_update
 
         chunk = Chunk(self.current_keys, array)
         return chunk
-- 
2.43.0


From 7946d0f69abf1078cbb56db4081d72cc713afb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 10/47] fix: apply boolean keys to adapters orthogonally

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9c21498..56492e0 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1371,7 +1371,7 @@ class _ArrayAdapter(Array):
         result_keys = []
         for axis, (key, size) in enumerate(zip(keys, concrete.shape)):
             result_key = self._cleanup_new_key(key, size, axis)
-            result_keys.append(key)
+            result_keys.append(result_key)
         self._keys = tuple(result_keys)
 
     @property
@@ -1414,6 +1414,7 @@ class _ArrayAdapter(Array):
                       'of size {0} is greater than axis {1} with ' \
                       'size {2}'.format(key.size, axis, size)
                 raise IndexError(msg)
+            key = tuple(np.nonzero(key)[0])
         elif isinstance(key, collections.Iterable) and \
                 not isinstance(key, six.string_types):
             # Make sure we capture the values in case we've
@@ -1453,7 +1454,7 @@ class _ArrayAdapter(Array):
                       'of size {0} is greater than axis {1} with ' \
                       'size {2}'.format(new_key.size, axis, size)
                 raise IndexError(msg)
-            result_key = tuple(np.array(indices)[new_key])
+            result_key = tuple(indices[i] for i in np.nonzero(new_key)[0])
         elif isinstance(new_key, collections.Iterable) and \
                 not isinstance(new_key, six.string_types):
             # Make sure we capture the values in case we've
-- 
2.43.0


From 17e48c12faa9881e1e02d3841222c4ca596e8051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 11/47] fix: keep the order of dimensions for scalar keys
 together with a tuple key

---
 biggus/_init.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 56492e0..0f04760 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1589,7 +1589,17 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
             for i, key in tuple_keys:
-                array = np.take(array, key, axis=dimensions[i])
+                array = np.take(array, np.array(key, dtype=int),
+                                axis=dimensions[i])
+        elif tuple_keys and any(map(_is_scalar, keys)):
+            # NumPy would treat the scalars as part of the "fancy" index,
+            # which can move the corresponding dimension to the front. So
+            # keep the scalar dimensions until after the tuple is applied.
+            cut_keys = tuple(slice(key, key + 1 or None)
+                             if _is_scalar(key) else key for key in keys)
+            array = self.concrete[cut_keys]
+            array = array[tuple(0 if _is_scalar(key) else slice(None)
+                                for key in keys)]
         else:
             array = self.concrete.__getitem__(keys)
         return array
-- 
2.43.0


From 00e2b70a7f148255b1aba13dd4fbe040acfb2d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 12/47] fix: keep the order of tiles when slicing a mosaic
 backwards

---
 biggus/_init.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0f04760..426b2e2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2098,9 +2098,6 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
-                if isinstance(axis_key, slice) and \
-                        axis_key.step is not None and axis_key.step < 0:
-                    tiles.reverse()
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From ac265c06936f4dc2dad5fc8c1ac200525067128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 13/47] fix: support negative and boolean indices along the
 axis of a mosaic

---
 biggus/_init.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 426b2e2..ab63c1d 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2059,12 +2059,14 @@ class LinearMosaic(Array):
             offsets = np.cumsum([0] + axis_lengths[:-1])
             splits = offsets - 1
             axis_key = keys[axis]
+            size = self.shape[axis]
             if _is_scalar(axis_key):
                 # Find the single relevant tile
-                tile_index = np.searchsorted(splits, axis_key) - 1
+                axis_index = _absolute_index(axis_key, size, axis)
+                tile_index = np.searchsorted(splits, axis_index) - 1
                 tile = self._tiles[tile_index]
                 tile_indices = list(keys)
-                tile_indices[axis] -= offsets[tile_index]
+                tile_indices[axis] = axis_index - offsets[tile_index]
                 result = tile[tuple(tile_indices)]
             elif isinstance(axis_key, (slice, collections.Iterable)) and \
                     not isinstance(axis_key, six.string_types):
@@ -2072,10 +2074,15 @@ class LinearMosaic(Array):
                 # NB. If the stride is large enough, this might not be a
                 # contiguous subset of self._tiles.
                 if isinstance(axis_key, slice):
-                    size = self.shape[axis]
                     all_axis_indices = range(*axis_key.indices(size))
                 else:
-                    all_axis_indices = tuple(axis_key)
+                    if isinstance(axis_key, np.ndarray) and \
+                            axis_key.dtype == np.dtype('bool'):
+                        # Numpy boolean indexing.
+                        axis_key = np.nonzero(axis_key)[0]
+                    all_axis_indices = tuple(
+                        _absolute_index(index, size, axis)
+                        for index in axis_key)
                 tile_indices = np.searchsorted(splits, all_axis_indices) - 1
                 pairs = zip(all_axis_indices, tile_indices)
                 i = itertools.groupby(pairs, lambda axis_tile: axis_tile[1])
@@ -3308,6 +3315,20 @@ def _sliced_shape(shape, keys):
     return sliced_shape
 
 
+def _absolute_index(index, size, axis):
+    """
+    Return the non-negative equivalent of the given index into an axis
+    of the given size.
+
+    Raises IndexError for an index which is out of bounds.
+
+    """
+    if index >= size or index < -size:
+        msg = 'index {0} is out of bounds for axis {1} with size {2}'
+        raise IndexError(msg.format(index, axis, size))
+    return index + size if index < 0 else index
+
+
 def _full_keys(keys, ndim):
     """
     Given keys such as those passed to ``__getitem__`` for an
-- 
2.43.0


From 73d816c63cf800fd0e706785084d3bede91d2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 14/47] fix: support empty selections from stacks and mosaics

---
 biggus/_init.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index ab63c1d..d666783 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1862,7 +1862,14 @@ class ArrayStack(Array):
         item_keys = keys[stack_ndim:]
 
         stack_shape = _sliced_shape(self._stack.shape, stack_keys)
-        if stack_shape:
+        if 0 in stack_shape:
+            # Nothing has been selected, so there are no items to provide
+            # the shape and dtype.
+            item_shape = _sliced_shape(self._item_shape, item_keys)
+            data = np.ma.empty(stack_shape + item_shape, dtype=self.dtype,
+                               fill_value=self.fill_value)
+            result = NumpyArrayAdapter(data)
+        elif stack_shape:
             stack = self._stack[stack_keys]
             # If the result was 0D, convert it back to an array.
             stack = np.array(stack)
@@ -2105,6 +2112,11 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
+                if not tiles:
+                    # Nothing has been selected, but we still need a
+                    # tile to provide the shape and dtype.
+                    tile_slice[axis] = slice(0, 0)
+                    tiles.append(self._tiles[0][tuple(tile_slice)])
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From 472b44abe8349e7e7b88813d16ed6674f8b01892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 15/47] fix: apply the keys of stack dimensions independently
 of each other

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d666783..458b1d2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1870,8 +1870,9 @@ class ArrayStack(Array):
                                fill_value=self.fill_value)
             result = NumpyArrayAdapter(data)
         elif stack_shape:
-            stack = self._stack[stack_keys]
-            # If the result was 0D, convert it back to an array.
+            # NB. The keys must be applied independently of each other.
+            stack = NumpyArrayAdapter(self._stack)[stack_keys].ndarray()
+            # Don't modify the original stack.
             stack = np.array(stack)
             for index in np.ndindex(stack_shape):
                 item = stack[index]
-- 
2.43.0


From 26ca746bfe9919092b19954dd927d048d43516f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 16/47] fix: check the bounds of indices into constant and
 broadcast arrays

---
 biggus/_init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 458b1d2..ddbba4e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3309,7 +3309,7 @@ def _sliced_shape(shape, keys):
     for key in keys:
         shape_dim += 1
         if _is_scalar(key):
-            continue
+            _absolute_index(key, shape[shape_dim], shape_dim)
         elif isinstance(key, slice):
             size = len(range(*key.indices(shape[shape_dim])))
             sliced_shape.append(size)
@@ -3317,6 +3317,8 @@ def _sliced_shape(shape, keys):
             # Numpy boolean indexing.
             sliced_shape.append(builtins.sum(key))
         elif isinstance(key, (tuple, np.ndarray)):
+            for sub_key in key:
+                _absolute_index(sub_key, shape[shape_dim], shape_dim)
             sliced_shape.append(len(key))
         elif key is np.newaxis:
             shape_dim -= 1
-- 
2.43.0


From 81b11a8c9d43b006af8914d75169302a61a0c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 17/47] fix: accept arrays of indices for the other dimensions
 of a broadcast array

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index ddbba4e..6c48edf 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1006,7 +1006,8 @@ class BroadcastArray(ArrayContainer):
                                               'implemented.'
                                               ''.format(type(key)))
         # Try to avoid a copy of self.array if we can.
-        if all(key == slice(None) for key in array_keys):
+        if all(isinstance(key, slice) and key == slice(None)
+               for key in array_keys):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
-- 
2.43.0


From 161e522337fe687e8b6c1e7f00e36fcf87773917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 18/47] fix: broadcast the right axes of operands which have
 been broadcast already

---
 biggus/_init.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6c48edf..e353e14 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1030,13 +1030,33 @@ class BroadcastArray(ArrayContainer):
         shape, bcast_kwargs1, bcast_kwargs2 = (
             cls._compute_broadcast_kwargs(array1.shape, array2.shape))
         if any(bcast_kwargs1.values()):
-            array1 = cls(array1, **bcast_kwargs1)
+            array1 = cls._broadcast_array(array1, **bcast_kwargs1)
 
         if any(bcast_kwargs2.values()):
-            array2 = cls(array2, **bcast_kwargs2)
+            array2 = cls._broadcast_array(array2, **bcast_kwargs2)
 
         return array1, array2
 
+    @classmethod
+    def _broadcast_array(cls, array, broadcast, leading_shape):
+        """Broadcast an array, counting axes from its first dimension."""
+        if isinstance(array, BroadcastArray):
+            # The axes of a nested broadcast don't count the dimensions
+            # which the existing broadcast has added.
+            existing_leading_shape = list(array._leading_shape)
+            n_leading = len(existing_leading_shape)
+            new_broadcast = array._broadcast_dict.copy()
+            for axis, length in broadcast.items():
+                if axis < n_leading:
+                    existing_leading_shape[axis] = length
+                else:
+                    new_broadcast[axis - n_leading] = length
+            array = array.array
+            broadcast = new_broadcast
+            leading_shape = (tuple(leading_shape) +
+                             tuple(existing_leading_shape))
+        return cls(array, broadcast, leading_shape)
+
     @staticmethod
     def _compute_broadcast_shape(shape1, shape2):
         """
-- 
2.43.0


From 791d1438d80655640bc9846a7da86268a0b45b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 19/47] fix: support empty selections of the leading dimensions
 of a broadcast array

---
 biggus/_init.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index e353e14..d5d5f46 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1011,6 +1011,12 @@ class BroadcastArray(ArrayContainer):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
+        if 0 in leading_shape:
+            # Nothing has been selected, and arrays cannot be broadcast to
+            # leading dimensions of length zero.
+            shape = leading_shape + type(self)(sub_array,
+                                               new_broadcast_dict).shape
+            return NumpyArrayAdapter(ma.empty(shape, dtype=self.dtype))
         return type(self)(sub_array, new_broadcast_dict, leading_shape)
 
     @classmethod
-- 
2.43.0


From c771f9fa0c5a187f9a3bb1c3bfe3192d3d275d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 20/47] fix: broadcast the right axes of an array with new axes

---
 biggus/_init.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d5d5f46..f4b2395 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -853,9 +853,13 @@ class NewAxesArray(ArrayContainer):
         existing_array_axis = 0
         broadcast_dict = {}
 
+        # The axis of the result to which the next key applies.
+        result_axis = 0
+
         for key_index, key in enumerate(keys):
             if key is np.newaxis:
                 new_axes[existing_array_axis] += 1
+                result_axis += 1
                 continue
 
             if is_newaxis.pop(0):
@@ -870,14 +874,14 @@ class NewAxesArray(ArrayContainer):
                 elif isinstance(key, slice):
                     new_size = len(range(*key.indices(1)))
                     if new_size != 1:
-                        broadcast_dict[key_index] = new_size
+                        broadcast_dict[result_axis] = new_size
                 elif isinstance(key, tuple):
                     for index in key:
                         if not -1 <= index < 1:
                             raise IndexError('index {} is out of bounds for '
                                              'axis {} with size 1'
                                              ''.format(key, key_index))
-                    broadcast_dict[key_index] = len(key)
+                    broadcast_dict[result_axis] = len(key)
                 else:
                     raise NotImplementedError('NewAxesArray indexing not yet '
                                               'supported for {} keys.'
@@ -892,6 +896,9 @@ class NewAxesArray(ArrayContainer):
                 contained_array_keys.append(key)
                 existing_array_axis += 1
 
+            if not _is_scalar(key):
+                result_axis += 1
+
         new_axes = list(new_axes)
         for axis in sorted(axes_to_combine, reverse=True):
             new_axes[axis] += new_axes.pop(axis + 1)
-- 
2.43.0


From ba5344a8c3877255854d1b97190b38c70aea11d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 21/47] fix: realise 0-dimensional arrays with new axes as
 arrays

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f4b2395..e34c089 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -910,11 +910,13 @@ class NewAxesArray(ArrayContainer):
 
     def ndarray(self):
         array = super(NewAxesArray, self).ndarray()
-        return array.__getitem__(self._newaxis_keys())
+        # NB. The Ellipsis ensures we never get an array-scalar.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
     def masked_array(self):
         array = super(NewAxesArray, self).masked_array()
-        return array.__getitem__(self._newaxis_keys())
+        # NB. The Ellipsis ensures we never get an array-scalar.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
 
 @export
-- 
2.43.0


From 5240120d4be9b53d5c2f968ef47edb6ead4bf85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 22/47] fix: realise a single masked element with the dtype and
 fill value of its array

---
 biggus/_init.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index e34c089..2c93653 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1558,17 +1558,23 @@ class _ArrayAdapter(Array):
 
     def ndarray(self):
         array = self._apply_keys()
+        if array is ma.masked:
+            # NB. The dtype of `ma.masked` is unrelated to our dtype.
+            array = np.array(self.fill_value, dtype=self.dtype)
+        if ma.isMaskedArray(array):
+            array = array.filled()
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
         if array.ndim == 0:
             array = np.array(array)
-        if ma.isMaskedArray(array):
-            array = array.filled()
         return array
 
     def masked_array(self):
         array = self._apply_keys()
+        if array is ma.masked:
+            # NB. The dtype of `ma.masked` is unrelated to our dtype.
+            array = ma.masked_all((), dtype=self.dtype)
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-- 
2.43.0


From 1e187bf35e7fe5dbfae789e4fc5f3e1b259af03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 23/47] fix: apply every cast of repeated casts

---
 biggus/_init.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2c93653..664ffdc 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1224,9 +1224,6 @@ class AsDataTypeArray(ArrayContainer):
     def dtype(self):
         return self._dtype
 
-    def astype(self, dtype):
-        return type(self)(self.array, dtype)
-
     def __getitem__(self, keys):
         # Apply the indexing to the contained array, then instantly
         # re-apply the astype.
-- 
2.43.0


From 3bfa6794a64dfb5580c329bb282a33375c64cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 24/47] fix: realise elementwise expressions as arrays of the
 declared dtype

---
 biggus/_init.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 664ffdc..5298708 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3051,10 +3051,28 @@ def var(a, axis=None, ddof=0):
                         dtype, dict(ddof=ddof))
 
 
+def _elementwise_result(array, dtype, masked):
+    """
+    Return the result of an elementwise operation as an array of the
+    given dtype, even where it is an array-scalar.
+
+    """
+    if array is ma.masked:
+        # NB. The dtype of `ma.masked` is unrelated to that of the operands.
+        array = ma.masked_all((), dtype=dtype)
+    elif masked:
+        array = ma.array(array, dtype=dtype, copy=False)
+    else:
+        array = np.asarray(array, dtype=dtype)
+    return array
+
+
 class _ElementwiseStreamsHandler(_StreamsHandler):
-    def __init__(self, sources, operator):
+    def __init__(self, sources, operator, dtype, masked):
         self.sources = sources
         self.operator = operator
+        self.dtype = dtype
+        self.masked = masked
 
     def finalise(self):
         pass
@@ -3064,6 +3082,7 @@ class _ElementwiseStreamsHandler(_StreamsHandler):
 
     def process_chunks(self, chunks):
         array = self.operator(*[chunk.data for chunk in chunks])
+        array = _elementwise_result(array, self.dtype, self.masked)
         chunk = Chunk(chunks[0].keys, array)
         return chunk
 
@@ -3163,7 +3182,7 @@ class _Elementwise(ComputedArray):
     def ndarray(self):
         np_operands = ndarrays(self.sources)
         result = self._numpy_op(*np_operands)
-        return result
+        return _elementwise_result(result, self.dtype, masked=False)
 
     def masked_array(self):
         if self._ma_op is None:
@@ -3171,7 +3190,7 @@ class _Elementwise(ComputedArray):
                             ''.format(self._numpy_op.__name__))
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
-        return result
+        return _elementwise_result(result, self.dtype, masked=True)
 
     def streams_handler(self, masked):
         if masked:
@@ -3181,7 +3200,8 @@ class _Elementwise(ComputedArray):
             operator = self._ma_op
         else:
             operator = self._numpy_op
-        return _ElementwiseStreamsHandler(self.sources, operator)
+        return _ElementwiseStreamsHandler(self.sources, operator,
+                                          self.dtype, masked)
 
 
 def _unary_fn_wrapper(name, function_to_wrap, masked_equivalent=None,
-- 
2.43.0


From d941d499c001e94ac7932dd772801590c61e8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 25/47] fix: adapt the dtype to a Python number on the left as
 NumPy does

---
 biggus/_init.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5298708..b2d4f43 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3097,6 +3097,8 @@ class _Elementwise(ComputedArray):
 
     """
     def __init__(self, array1, array2, numpy_op, ma_op=None):
+        # Keep initial_array1 for later type checking.
+        initial_array1 = array1
         array1 = ensure_array(array1)
 
         expected_n_arrays = None
@@ -3136,6 +3138,10 @@ class _Elementwise(ComputedArray):
             # this is to trap the case where a Python int of float is provided,
             # rather than a numpy int or float.  The type promotion is handled
             # differently, for consistency with numpy (1.8 & 1.9) behaviour.
+            if type(initial_array1) is int or type(initial_array1) is float:
+                first_array = initial_array1
+            else:
+                first_array = np.ones(1, dtype=array1.dtype)
             if type(initial_array2) is int or type(initial_array2) is float:
                 second_array = initial_array2
             else:
@@ -3145,8 +3151,7 @@ class _Elementwise(ComputedArray):
             # dtypes and the operation. Avoid using np.find_common_dtype(),
             # here, as integer division yields a float, whereas standard type
             # coercion rules with find_common_dtype yields an integer.
-            dtype = numpy_op(np.ones(1, dtype=array1.dtype),
-                             second_array).dtype
+            dtype = numpy_op(first_array, second_array).dtype
 
         self._dtype = dtype
         self._array1 = array1
-- 
2.43.0


From b6f1be6fa69210730bb6dac9ee3df8a79859add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 26/47] fix: keep the dtype of an expression when indexing it

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index b2d4f43..95fef15 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3182,6 +3182,8 @@ class _Elementwise(ComputedArray):
         else:
             result = _Elementwise(self._array1[keys], self._array2[keys],
                                   self._numpy_op, self._ma_op)
+            # NB. The dtype may have been adapted to a Python number.
+            result._dtype = self._dtype
         return result
 
     def ndarray(self):
-- 
2.43.0


From 1feaf08c548c9d35a422e9dc8fddf2396e4e9562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 27/47] fix: refuse to assign a member of another shape or
 dtype into a stack

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 95fef15..5e80cea 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1926,6 +1926,8 @@ class ArrayStack(Array):
         for key in keys:
             assert _is_scalar(key)
         assert isinstance(value, Array), type(value)
+        if value.shape != self._item_shape or value.dtype != self._dtype:
+            raise ValueError('invalid sub-array')
         self._stack[keys] = value
 
     def ndarray(self):
-- 
2.43.0


From a51f19098530eb6ed7ba27dc53b176e038538c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 28/47] fix: name combined chunks in Dask graphs

---
 biggus/experimental/dask_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index dcc0f1b..e9e956c 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -240,7 +240,7 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                     combined = self.collect(array[t_keys], masked, chunk=True)
                     new_task = (combined, ) + dependencies
                     new_id = ('chunk shape: {}\n\n{}'
-                              ''.format(array[t_keys].shape, uuid.uuid()))
+                              ''.format(array[t_keys].shape, uuid.uuid4()))
                     dsk_graph[new_id] = new_task
                     dependencies = (new_id, )
 
-- 
2.43.0


From a488a6e7a6aa4484e4b30e01c75ee06096cda973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 29/47] fix: combine differently chunked sources correctly in
 the Dask engine

---
 biggus/experimental/dask_engine.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index e9e956c..8bb4350 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -216,8 +216,8 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
             t_keys = tuple(slice(*slice_tuple) for slice_tuple in slice_group)
 
             all_chunks = []
-            for source_keys, source_chunks_by_key in zip(sources_keys_group,
-                                                         sources_chunks):
+            for input_array, source_keys, source_chunks_by_key in zip(
+                    array.sources, sources_keys_group, sources_chunks):
                 dependencies = tuple(
                         the_id
                         for keys in source_keys
@@ -237,7 +237,8 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 # TODO: Fix slice equality to deal with 0 and None etc.
                 if not all(t_keys == normalize_keys(keys, array.shape)
                            for keys in source_keys):
-                    combined = self.collect(array[t_keys], masked, chunk=True)
+                    combined = self.collect(input_array[t_keys], masked,
+                                            target_keys=t_keys)
                     new_task = (combined, ) + dependencies
                     new_id = ('chunk shape: {}\n\n{}'
                               ''.format(array[t_keys].shape, uuid.uuid4()))
@@ -351,7 +352,16 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
         return nodes
 
     @staticmethod
-    def collect(array, masked, chunk=False, name=None):
+    def collect(array, masked, target_keys=None, name=None):
+        # If target_keys are given then the array is just that part of a
+        # bigger array, and the result is the corresponding chunk of it.
+        def local_keys(keys):
+            offsets = [target_key.start or 0 for target_key in target_keys]
+            return tuple(slice((key.start or 0) - offset,
+                               None if key.stop is None
+                               else key.stop - offset)
+                         for key, offset in zip(keys, offsets))
+
         def gather(*all_chunks):
             # We make the NdarrayNode inside the calling function as it is this
             # that ultimately we want. TODO: Turn this into a biggus.Array
@@ -361,12 +371,14 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 # TODO: Factor it so that this isn't necessary...
                 if isinstance(chunks, biggus._init.Chunk):
                     chunks = [chunks]
+                if target_keys is not None:
+                    chunks = [biggus._init.Chunk(local_keys(chunk.keys),
+                                                 chunk.data)
+                              for chunk in chunks]
                 result_node.process_chunks(chunks)
             result_array = result_node.result
-            if chunk:
-                return biggus._init.Chunk(tuple(slice(None)
-                                                for _ in result_array.shape),
-                                          result_array)
+            if target_keys is not None:
+                return biggus._init.Chunk(target_keys, result_array)
             return result_array
         if name:
             gather.__name__ = name
-- 
2.43.0


From 8a4c2f9d49ee6267f5d90350e54525be5a063576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 30/47] fix: allow the tasks of a Dask graph to be run again

---
 biggus/experimental/dask_engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index 8bb4350..ac4bbae 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -49,6 +49,7 @@ try:
     from itertools import izip_longest as zip_longest
 except ImportError:
     from itertools import zip_longest
+import copy
 import uuid
 
 import biggus
@@ -142,11 +143,13 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
     @staticmethod
     def create_chunks_handler_fn(handler, n_sources, nicename):
         def produce_chunks(produced_keys, *all_chunks):
+            # Handlers have state, so allow for the task being run again.
+            chunks_handler = copy.copy(handler)
             all_chunks = list(_groups_of_size(all_chunks, n_sources))
             process_result = None
             for chunks in all_chunks:
-                process_result = handler.process_chunks(chunks)
-            result = handler.finalise()
+                process_result = chunks_handler.process_chunks(chunks)
+            result = chunks_handler.finalise()
             if result is None:
                 if process_result is None:
                     raise RuntimeError('No result to process.')
-- 
2.43.0


From b7e7ad248157b2dfadb2222e99850aae404ed06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 31/47] fix: keep the fill value when indexing with several
 index tuples

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5e80cea..a99e762 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1628,8 +1628,10 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
             for i, key in tuple_keys:
-                array = np.take(array, np.array(key, dtype=int),
-                                axis=dimensions[i])
+                # (NB. `np.take` would lose the fill value of a masked array.)
+                cut_keys = ((slice(None),) * dimensions[i] +
+                            (np.array(key, dtype=int),))
+                array = array[cut_keys]
         elif tuple_keys and any(map(_is_scalar, keys)):
             # NumPy would treat the scalars as part of the "fancy" index,
             # which can move the corresponding dimension to the front. So
-- 
2.43.0


From d2ff4294e44a46220a102811ba84574924abd046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 32/47] fix: keep slices of slices as slices, so that only what
 they select is read

---
 biggus/_init.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a99e762..033793d 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1503,6 +1503,25 @@ class _ArrayAdapter(Array):
             raise TypeError('invalid key {!r}'.format(new_key))
         return result_key
 
+    @staticmethod
+    def _combine_slices(src_key, src_size, new_key, new_size):
+        """
+        Return the slice that represents the combination of the slice
+        `new_key` with the slice `src_key`, which results in a dimension
+        of `new_size`.
+
+        """
+        src_start, _, src_stride = src_key.indices(src_size)
+        new_start, new_stop, new_stride = new_key.indices(new_size)
+        count = len(range(new_start, new_stop, new_stride))
+        if count == 0:
+            return slice(0, 0)
+        start = src_start + new_start * src_stride
+        stride = src_stride * new_stride
+        stop = start + count * stride
+        # A negative stop would count from the end of the dimension.
+        return slice(start, stop if stop >= 0 else None, stride)
+
     def _getitem_full_keys(self, keys):
         result_keys = []
         shape = list(self.concrete.shape)
@@ -1526,7 +1545,12 @@ class _ArrayAdapter(Array):
                 start, stop, stride = src_key.indices(src_size)
                 indices = tuple(range(start, stop, stride))
                 new_key = new_keys.pop(0)
-                result_key = self._remap_new_key(indices, new_key, axis)
+                if isinstance(new_key, slice):
+                    # A slice of a slice is still a slice.
+                    result_key = self._combine_slices(src_key, src_size,
+                                                      new_key, len(indices))
+                else:
+                    result_key = self._remap_new_key(indices, new_key, axis)
             else:
                 new_key = new_keys.pop(0)
                 result_key = self._remap_new_key(src_key, new_key, axis)
-- 
2.43.0


From c71964ef65db409f8bce26a535c31aa28c9896dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 33/47] fix: select slices of the tiles of a mosaic by slices

---
 biggus/_init.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 033793d..e292ec0 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2176,6 +2176,14 @@ class LinearMosaic(Array):
                         step = 1
                         stop = start + 1
                         tile_slice[axis] = slice(start, stop, step)
+                    elif isinstance(axis_key, slice):
+                        # What a slice selects from a tile is a slice too.
+                        step = axis_indices[1] - axis_indices[0]
+                        stop = axis_indices[-1] + step
+                        # A negative stop would count from the end.
+                        tile_slice[axis] = slice(axis_indices[0],
+                                                 stop if stop >= 0 else None,
+                                                 step)
                     else:
                         tile_slice[axis] = axis_indices
 
-- 
2.43.0


From d5fb7dc37ecce453f23bd013c40d445ce639fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 34/47] fix: refuse boolean indices which are too long for
 constant and broadcast dimensions

---
 biggus/_init.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index e292ec0..9ee11c7 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3417,6 +3417,12 @@ def _sliced_shape(shape, keys):
             sliced_shape.append(size)
         elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
             # Numpy boolean indexing.
+            if key.size > shape[shape_dim]:
+                msg = 'too many boolean indices. Boolean index array ' \
+                      'of size {0} is greater than axis {1} with ' \
+                      'size {2}'.format(key.size, shape_dim,
+                                        shape[shape_dim])
+                raise IndexError(msg)
             sliced_shape.append(builtins.sum(key))
         elif isinstance(key, (tuple, np.ndarray)):
             for sub_key in key:
-- 
2.43.0


From c4cbbdd6fdc943e150adc5165547f9bf2cc1895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 35/47] fix: single masked elements have a definite value
 beneath the mask

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9ee11c7..6a013cf 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1595,7 +1595,7 @@ class _ArrayAdapter(Array):
         array = self._apply_keys()
         if array is ma.masked:
             # NB. The dtype of `ma.masked` is unrelated to our dtype.
-            array = ma.masked_all((), dtype=self.dtype)
+            array = ma.MaskedArray(np.zeros((), self.dtype), mask=True)
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
@@ -3095,7 +3095,7 @@ def _elementwise_result(array, dtype, masked):
     """
     if array is ma.masked:
         # NB. The dtype of `ma.masked` is unrelated to that of the operands.
-        array = ma.masked_all((), dtype=dtype)
+        array = ma.MaskedArray(np.zeros((), dtype), mask=True)
     elif masked:
         array = ma.array(array, dtype=dtype, copy=False)
     else:
-- 
2.43.0


From c06817d9a11760036584ddcf04b84485466d0af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 36/47] fix: evaluate views again only if there is another way
 to

---
 biggus/_init.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6a013cf..fc0f50e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -759,9 +759,10 @@ class ArrayContainer(Array):
         return self.array.__getitem__(keys)
 
     def ndarray(self):
-        try:
+        # NB. Evaluating the array can raise any exception.
+        if hasattr(self.array, 'ndarray'):
             return self.array.ndarray()
-        except AttributeError:
+        else:
             return np.array(self.array)
 
     @property
@@ -769,9 +770,10 @@ class ArrayContainer(Array):
         return self.array.__array_priority__
 
     def masked_array(self):
-        try:
+        # NB. Evaluating the array can raise any exception.
+        if hasattr(self.array, 'masked_array'):
             return self.array.masked_array()
-        except AttributeError:
+        else:
             return np.ma.masked_array(self.array)
 
 
-- 
2.43.0


From a4a1e62190a0f1a18f4c1a07ec4e81124ec98881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 37/47] fix: emit the results of aggregations as soon as they
 are complete

---
 biggus/_init.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index fc0f50e..18a52c1 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -302,16 +302,28 @@ class StreamsHandlerNode(ConsumerNode):
     def __init__(self, array, streams_handler):
         self.array = array
         self.streams_handler = streams_handler
+        self._pending = False
         super(StreamsHandlerNode, self).__init__()
 
     def finalise(self):
-        return self.streams_handler.finalise()
+        if self._pending:
+            self._pending = False
+            return self.streams_handler.finalise()
 
     def input_iteration_order(self, iteration_order):
         return self.streams_handler.input_iteration_order(iteration_order)
 
     def process_chunks(self, chunks):
-        return self.streams_handler.process_chunks(chunks)
+        result = self.streams_handler.process_chunks(chunks)
+        self._pending = True
+        # Don't wait for the next chunks if the current result is complete.
+        # Otherwise a consumer with several inputs would receive those which
+        # have been through more aggregations later than the others, and
+        # the nodes which they share could block each other for ever.
+        if self.streams_handler.is_complete(chunks):
+            result = self.finalise()
+            self.streams_handler.reset()
+        return result
 
 
 class NdarrayNode(ConsumerNode):
@@ -2373,10 +2385,23 @@ class _StreamsHandler(six.with_metaclass(ABCMeta, object)):
     def input_iteration_order(self, iteration_order):
         pass
 
+    def is_complete(self, chunks):
+        """
+        Whether the given chunks, which have just been processed, are the
+        last ones to contribute to the current result chunk. They have to
+        be processed according to the input iteration order.
+
+        """
+        return False
+
     @abstractmethod
     def process_chunks(self, chunks):
         pass
 
+    def reset(self):
+        """Forget about the current result chunk."""
+        pass
+
 
 class _AggregationStreamsHandler(_StreamsHandler):
     def __init__(self, array, axis):
@@ -2446,6 +2471,15 @@ class _AggregationStreamsHandler(_StreamsHandler):
         self.process_data(chunk.data)
         return result
 
+    def is_complete(self, chunks):
+        # The aggregated axis is the last one to be iterated over.
+        chunk, = chunks
+        stop = chunk.keys[self.axis].stop
+        return stop is None or stop == self.array.shape[self.axis]
+
+    def reset(self):
+        self.current_keys = None
+
     @abstractmethod
     def process_data(self, data):
         pass
-- 
2.43.0


From 6373609a4cd848d6d5dc79316ba030a5cef7afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 38/47] fix: group the keys of dimensions with ten thousand
 chunks or more

---
 biggus/experimental/key_grouper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/experimental/key_grouper.py b/biggus/experimental/key_grouper.py
index 5b4e299..f2dd32f 100644
--- a/biggus/experimental/key_grouper.py
+++ b/biggus/experimental/key_grouper.py
@@ -110,9 +110,9 @@ def dimension_group_to_lowest_common(dim_length, dim_keys):
                              for stop, index in zip(current_stops,
                                                     current_index)]
 
-        # Prevent an infinite loop.
+        # Prevent an infinite loop. (Each time at least one index moves.)
         i += 1
-        if i > 9999:
+        if i > sum(lengths):
             # This should never happen, but it may be possible with some inputs
             # (unverified).
             raise RuntimeError('The algorithm failed to find key groups.')
-- 
2.43.0


From 0f88bdc0830238c124338e2dcdc20ae079530c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 39/47] fix: 0-dimensional adapters of strings, or of another
 byte order, realised to another dtype

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 18a52c1..a065469 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1601,8 +1601,9 @@ class _ArrayAdapter(Array):
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
+        # (NB. An array-scalar might not have kept our dtype.)
         if array.ndim == 0:
-            array = np.array(array)
+            array = np.array(array, dtype=self.dtype)
         return array
 
     def masked_array(self):
@@ -1614,7 +1615,8 @@ class _ArrayAdapter(Array):
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
         if array.ndim == 0 or not ma.isMaskedArray(array):
-            array = ma.MaskedArray(array, fill_value=self.fill_value)
+            array = ma.MaskedArray(array, dtype=self.dtype,
+                                   fill_value=self.fill_value)
         return array
 
 
-- 
2.43.0


From d18adb22a9325a40e93e7c723ece015147c24d7f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 40/47] fix: variances and standard deviations of complex
 numbers

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a065469..73a5643 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2739,7 +2739,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
             self.a += temp
 
             # Compute q(k).
-            temp *= temp
+            temp *= temp.conj()
             temp *= self.k * (self.k - 1)
             self.q += temp
 
@@ -2798,7 +2798,7 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
             self.a[do_stuff] += temp
 
             # Compute q(k).
-            temp *= temp
+            temp *= temp.conj()
             temp *= (self.running_count[do_stuff] *
                      (self.running_count[do_stuff] - 1))
             self.q[do_stuff] += temp
-- 
2.43.0


From 9087ecd0afa3e55e700004ae4134b6d384b74771 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:45:27 +0000
Subject: [PATCH 41/47] fix: elementwise operations convert Python numbers to
 the type of the array, as NumPy does

---
 biggus/_init.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 73a5643..68f30be 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3204,6 +3204,16 @@ class _Elementwise(ComputedArray):
             # Dual input elementwise
             array2 = ensure_array(array2)
 
+            # NumPy converts Python numbers to the type of the array.
+            if type(initial_array1) in (int, float):
+                array1 = self._adapted_number(
+                    array1, initial_array1, array2.dtype,
+                    lambda number, array: numpy_op(number, array))
+            elif type(initial_array2) in (int, float):
+                array2 = self._adapted_number(
+                    array2, initial_array2, array1.dtype,
+                    lambda number, array: numpy_op(array, number))
+
             # Broadcast both arrays to the full broadcast shape.
             # TypeError will be raised if not broadcastable.
             array1, array2 = BroadcastArray.broadcast_arrays(array1, array2)
@@ -3233,6 +3243,22 @@ class _Elementwise(ComputedArray):
         self._numpy_op = numpy_op
         self._ma_op = ma_op
 
+    @staticmethod
+    def _adapted_number(number_array, number, dtype, operation):
+        """
+        Return the given Python number as a zero-dimensional Array of the
+        type it takes on beside an array of the given dtype.
+
+        """
+        array = np.ones(1, dtype=dtype)
+        number_dtype = np.result_type(array, number)
+        try:
+            operation(np.ones(1, dtype=number_dtype), array)
+        except TypeError:
+            # e.g. The exponents of `ldexp` are never floats.
+            return number_array
+        return ConstantArray((), number, number_dtype)
+
     @property
     def dtype(self):
         return self._dtype
-- 
2.43.0


From e8b987c74cbe15f78b4dca83ab78c253f0af24b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 42/47] fix: refuse boolean masks longer than the tiled axis of
 a mosaic

---
 biggus/_init.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 68f30be..2d992fb 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2170,6 +2170,12 @@ class LinearMosaic(Array):
                     if isinstance(axis_key, np.ndarray) and \
                             axis_key.dtype == np.dtype('bool'):
                         # Numpy boolean indexing.
+                        if axis_key.size > size:
+                            msg = 'too many boolean indices. Boolean index ' \
+                                  'array of size {0} is greater than axis ' \
+                                  '{1} with size {2}'.format(axis_key.size,
+                                                             axis, size)
+                            raise IndexError(msg)
                         axis_key = np.nonzero(axis_key)[0]
                     all_axis_indices = tuple(
                         _absolute_index(index, size, axis)
-- 
2.43.0


From 188eb24eed6c9310c59be2ac7087362784653f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 43/47] fix: refuse boolean masks of other than one dimension

---
 biggus/_init.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2d992fb..668e17c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3538,6 +3538,11 @@ def _full_keys(keys, ndim):
     # Make keys mutable, and take a copy.
     keys = list(keys)
 
+    for key in keys:
+        if isinstance(key, np.ndarray) and key.dtype == np.dtype('bool') and \
+                key.ndim != 1:
+            raise IndexError('a boolean index array must have one dimension')
+
     # Count the number of keys which actually slice a dimension.
     n_keys_non_newaxis = len([key for key in keys if key is not np.newaxis])
 
-- 
2.43.0


From d66d5e6efda8f3f616a355bb50fadeaabb277f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 44/47] fix: refuse index tuples of members which are not
 integers

---
 biggus/_init.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 668e17c..19cac3b 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -23,6 +23,7 @@ from six.moves import builtins
 import collections
 import functools
 import itertools
+import operator
 import threading
 from six.moves import queue
 import warnings
@@ -891,10 +892,7 @@ class NewAxesArray(ArrayContainer):
                         broadcast_dict[result_axis] = new_size
                 elif isinstance(key, tuple):
                     for index in key:
-                        if not -1 <= index < 1:
-                            raise IndexError('index {} is out of bounds for '
-                                             'axis {} with size 1'
-                                             ''.format(key, key_index))
+                        _absolute_index(index, 1, key_index)
                     broadcast_dict[result_axis] = len(key)
                 else:
                     raise NotImplementedError('NewAxesArray indexing not yet '
@@ -1468,10 +1466,8 @@ class _ArrayAdapter(Array):
             # been given a one-shot iterable, like a generator.
             key = tuple(key)
             for sub_key in key:
-                if sub_key >= size or sub_key < -size:
-                    msg = 'index {0} is out of bounds for axis {1}' \
-                          ' with size {2}'.format(sub_key, axis, size)
-                    raise IndexError(msg)
+                _absolute_index(sub_key, size, axis)
+            key = tuple(map(operator.index, key))
         else:
             raise TypeError('invalid key {!r}'.format(key))
         return key
@@ -3513,9 +3509,11 @@ def _absolute_index(index, size, axis):
     Return the non-negative equivalent of the given index into an axis
     of the given size.
 
-    Raises IndexError for an index which is out of bounds.
+    Raises IndexError for an index which is out of bounds, and TypeError
+    for one which is not an integer.
 
     """
+    operator.index(index)
     if index >= size or index < -size:
         msg = 'index {0} is out of bounds for axis {1} with size {2}'
         raise IndexError(msg.format(index, axis, size))
-- 
2.43.0


From a8035605a921e887cafafd85be0b874d24ab6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 45/47] fix: a bool as an index of an adapter is an integer, as
 its shape says

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 19cac3b..ed36822 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1451,6 +1451,8 @@ class _ArrayAdapter(Array):
                 msg = 'index {0} is out of bounds for axis {1} with' \
                       ' size {2}'.format(key, axis, size)
                 raise IndexError(msg)
+            # (NumPy would treat a bool as a mask.)
+            key = operator.index(key)
         elif isinstance(key, slice):
             pass
         elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
-- 
2.43.0


From 1bcd861562ed538f85eb5b53eb127d447335dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:56 +0000
Subject: [PATCH 46/47] fix: Broadcast operands against dimensions of length
 zero

---
 biggus/_init.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index ed36822..5bc4ece 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1082,6 +1082,11 @@ class BroadcastArray(ArrayContainer):
             broadcast = new_broadcast
             leading_shape = (tuple(leading_shape) +
                              tuple(existing_leading_shape))
+        if 0 in leading_shape:
+            # There are no elements, and arrays cannot be broadcast to
+            # leading dimensions of length zero.
+            shape = leading_shape + cls(array, broadcast).shape
+            return NumpyArrayAdapter(ma.empty(shape, dtype=array.dtype))
         return cls(array, broadcast, leading_shape)
 
     @staticmethod
-- 
2.43.0


From 3160c0a482e4cdcbdf3ef44ad733bc092caa7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:34 +0000
Subject: [PATCH 47/47] fix: keep assignments to a stack out of the array it
 was made from

ArrayStack kept the array of arrays which it was given, so that assigning
a member of the stack changed that array too, and any other stack which
had been made from it.
---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5bc4ece..9899c32 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1872,7 +1872,8 @@ class ArrayStack(Array):
 
     """
     def __init__(self, stack):
-        stack = np.require(stack, dtype='O')
+        # NB. Assigning to this stack must not change the given one.
+        stack = np.array(stack, dtype='O')
         first_array = stack.flat[0]
         item_shape = first_array.shape
         dtype = first_array.dtype
-- 
2.43.0

