From b58713f9bdc97853b8ec177372f55edb7726c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 01/71] fix: expand an Ellipsis when indexing a sparse array

array[..., 0] was taken as an index into the scan axes and silently returned
the wrong data.
---
 python/stempy/io/sparse_array.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 497f13b..f37dbb7 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -819,6 +819,8 @@ class SparseArray:
             # Wrap it with a tuple to simplify
             slices = (slices,)
 
+        slices = self._expand_ellipsis(slices)
+
         if not slices:
             # It's an empty tuple
             return tuple(), tuple()
@@ -882,6 +884,34 @@ class SparseArray:
 
         return scan_slices, frame_slices
 
+    def _expand_ellipsis(self, slices):
+        """Replace an Ellipsis by the full slices that it stands for"""
+        num_ellipses = sum(x is Ellipsis for x in slices)
+        if num_ellipses == 0:
+            return slices
+
+        if num_ellipses > 1:
+            raise IndexError('An index can only have a single ellipsis')
+
+        # A boolean array indexes as many axes as it has dimensions, and
+        # everything else indexes one axis.
+        num_indexed = 0
+        for x in slices:
+            if x is Ellipsis:
+                continue
+
+            array = np.asarray(x) if isinstance(x, Sequence) else x
+            is_mask = (isinstance(array, np.ndarray) and
+                       array.dtype == np.bool_)
+            num_indexed += array.ndim if is_mask else 1
+
+        if num_indexed > self.ndim:
+            raise IndexError('Too many indices')
+
+        i = [x is Ellipsis for x in slices].index(True)
+        fill = (NONE_SLICE,) * (self.ndim - num_indexed)
+        return slices[:i] + fill + slices[i + 1:]
+
     def _sparse_frames(self, indices):
         if not isinstance(indices, (list, tuple)):
             indices = (indices,)
-- 
2.43.0


From abf7f6d5eb0a77eb83d1399d968d495ce39175c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 02/71] fix: keep every copy when slicing sparse frames with
 repeated indices

---
 python/stempy/io/sparse_array.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index f37dbb7..a198318 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -992,6 +992,8 @@ class SparseArray:
                 return self._slice_dense(scan_slices, frame_slices)
 
             valid_flat_frame_indices = sliced.ravel()
+            has_duplicates = (len(np.unique(valid_flat_frame_indices)) !=
+                              len(valid_flat_frame_indices))
             new_frame_indices_map = np.full(self._frame_shape_flat, -1)
 
             new_indices = np.arange(len(valid_flat_frame_indices))
@@ -1003,6 +1005,12 @@ class SparseArray:
             # Now set it
             for i, scan_frames in enumerate(new_frames):
                 for j, sparse_frame in enumerate(scan_frames):
+                    if has_duplicates:
+                        # A pixel may end up in several places
+                        new_data[i, j] = np.flatnonzero(np.isin(
+                            valid_flat_frame_indices, sparse_frame))
+                        continue
+
                     new_frame = new_frame_indices_map[sparse_frame]
                     new_data[i, j] = copy.deepcopy(new_frame[new_frame >= 0])
         else:
-- 
2.43.0


From 42a94df3480e83d02a441ec845a650aed953a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 03/71] fix: maximum over the frame axes of a position without
 events is zero

---
 python/stempy/io/sparse_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index a198318..7576c71 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -421,7 +421,8 @@ class SparseArray:
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
-                ret[i] = np.max(counts)
+                # The position may not have any events
+                ret[i] = np.max(counts, initial=0)
             return ret.reshape(self.scan_shape)
 
     @_arithmethic_decorators
-- 
2.43.0


From 07d41f27b8448771f8aa43a4b5f2739c41cc2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 04/71] fix: minimum of a sparse array with a floating point
 dtype

---
 python/stempy/io/sparse_array.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 7576c71..8dd78a9 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -453,7 +453,7 @@ class SparseArray:
             dtype = self.dtype
 
         if self._is_scan_axes(axis):
-            ret = np.full(self._frame_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._frame_shape_flat, _max_value(dtype), dtype)
             expanded = np.empty(self._frame_shape_flat, dtype)
             for scan_frames in self.data:
                 expanded[:] = 0
@@ -464,7 +464,7 @@ class SparseArray:
             return ret.reshape(self.frame_shape)
 
         if self._is_frame_axes(axis):
-            ret = np.full(self._scan_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._scan_shape_flat, _max_value(dtype), dtype)
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
@@ -1107,6 +1107,11 @@ def _is_none_slice(x):
     return isinstance(x, slice) and x == NONE_SLICE
 
 
+def _max_value(dtype):
+    info = np.iinfo if np.issubdtype(dtype, np.integer) else np.finfo
+    return info(dtype).max
+
+
 def _warning(msg):
     print(f'Warning: {msg}', file=sys.stderr)
 
-- 
2.43.0


From 5244d04c20d056ff4eefdba1b813c5ae0df572e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 05/71] fix: accept dtype in min() and max() over axes that
 need an expansion

---
 python/stempy/io/sparse_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 8dd78a9..e28bafe 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -42,6 +42,12 @@ def _default_full_expansion(func):
             expanded = self[:]
         finally:
             self.sparse_slicing = prev_sparse_slicing
+
+        # Some numpy functions, like max(), do not have a dtype argument
+        dtype = kwargs.pop('dtype', None)
+        if dtype is not None:
+            expanded = expanded.astype(dtype)
+
         return getattr(expanded, name)(*args, **kwargs)
     return wrapper
 
-- 
2.43.0


From a215f3ab248b737a9a64dd12d9c3cfb016035439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 06/71] fix: frame binning when all duplicate rows have the
 same length

numpy broadcasts such a list of rows instead of assigning one row per element.
---
 python/stempy/io/sparse_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index e28bafe..5730dac 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -668,7 +668,10 @@ class SparseArray:
             new_size = rows.shape[0] + len(extra_rows)
             new_data = np.empty(new_size, dtype=object)
             new_data[:rows.shape[0]] = rows
-            new_data[rows.shape[0]:] = extra_rows
+            # Set these one at a time, since numpy would try to broadcast
+            # rows that happen to have the same length.
+            for i, extra_row in enumerate(extra_rows, rows.shape[0]):
+                new_data[i] = extra_row
             new_scan_positions = np.append(new_scan_positions,
                                            extra_scan_positions)
 
-- 
2.43.0


From 893508e989d901a827ca16b8a74631f408d5beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 07/71] fix: binning of frames that are not square

---
 python/stempy/io/sparse_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 5730dac..c2bebdb 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -637,10 +637,10 @@ class SparseArray:
         # Ravel the data for easier manipulation in this function
         data = self.data.ravel()
 
-        rows = data // self.frame_shape[0] // bin_factor
+        rows = data // self.frame_shape[1] // bin_factor
         cols = data % self.frame_shape[1] // bin_factor
 
-        rows *= (self.frame_shape[0] // bin_factor)
+        rows *= (self.frame_shape[1] // bin_factor)
         rows += cols
 
         new_data = rows
-- 
2.43.0


From 3a20ac421a47c4b087d116c6715faeadf218bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 08/71] fix: scan binning of a sparse array with a
 one-dimensional scan

---
 python/stempy/io/sparse_array.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index c2bebdb..ff7aa55 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -587,18 +587,19 @@ class SparseArray:
         # positions.
         new_scan_shape = tuple(x // bin_factor for x in self.scan_shape)
         all_positions = self.scan_positions
-        all_positions_reshaped = all_positions.reshape(
-            new_scan_shape[0], bin_factor, new_scan_shape[1], bin_factor)
+        # Group together the positions that get binned together. The scan may
+        # have 1 or 2 dimensions.
+        ndim = len(new_scan_shape)
+        split_shape = [n for x in new_scan_shape for n in (x, bin_factor)]
+        order = [*range(0, 2 * ndim, 2), *range(1, 2 * ndim, 2)]
+        grouped_positions = all_positions.reshape(split_shape).transpose(
+            order).reshape(-1, bin_factor**ndim)
 
         new_data_shape = (np.prod(new_scan_shape),
-                          bin_factor**2 * self.num_frames_per_scan)
+                          bin_factor**ndim * self.num_frames_per_scan)
         new_data = np.empty(new_data_shape, dtype=object)
-        for i in range(new_scan_shape[0]):
-            for j in range(new_scan_shape[1]):
-                idx = i * new_scan_shape[1] + j
-                scan_position = all_positions[idx]
-                to_change = all_positions_reshaped[i, :, j, :].ravel()
-                new_data[scan_position] = np.concatenate(self.data[to_change])
+        for i, to_change in enumerate(grouped_positions):
+            new_data[i] = np.concatenate(self.data[to_change])
 
         if in_place:
             self.scan_shape = new_scan_shape
-- 
2.43.0


From e792771a255195d1fb7b968596f5211c9feb44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 09/71] fix: center of mass of sparse frames that are not
 square

---
 python/stempy/image/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 2f79621..03b87a2 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -417,11 +417,11 @@ def com_v1_kernel(
         return com.reshape((2, *scan_shape))
 
     # Decode coordinates
-    if frame_x & (frame_x - 1) == 0:  # power of 2
-        shift = int(np.log2(frame_x))
+    if frame_y & (frame_y - 1) == 0:  # power of 2
+        shift = int(np.log2(frame_y))
         x = (all_events_concat >> shift).astype(np.float32)
     else:
-        x = (all_events_concat // frame_x).astype(np.float32)
+        x = (all_events_concat // frame_y).astype(np.float32)
 
     if frame_y & (frame_y - 1) == 0:
         mask = frame_y - 1
@@ -529,7 +529,7 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
         ev = np.hstack(frames)
 
         if len(ev) > 0:
-            x = ev // array.frame_shape[0]
+            x = ev // array.frame_shape[1]
             y = ev % array.frame_shape[1]
             mm0 = len(ev)
             
-- 
2.43.0


From 847214ce0c7da377b785b838f794c8d8685c4a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 10/71] fix: virtual dark field of sparse frames that are not
 square

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 03b87a2..f75a322 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -839,7 +839,7 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
-            ev_rows = ev // array.frame_shape[0]
+            ev_rows = ev // array.frame_shape[1]
             ev_cols = ev % array.frame_shape[1]
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
                 dist = np.sqrt((ev_rows - cc_1)**2 + (ev_cols - cc_0)**2)
-- 
2.43.0


From 9f32bcb5fe35841860dbae07d145544455ba110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 11/71] fix: loading version 1 counts when all duplicate rows
 have the same length

---
 python/stempy/io/compatibility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/compatibility.py b/python/stempy/io/compatibility.py
index 32ccc85..169f5a7 100644
--- a/python/stempy/io/compatibility.py
+++ b/python/stempy/io/compatibility.py
@@ -53,7 +53,8 @@ def convert_data_v1_to_v2(data, scan_positions, scan_shape):
         new_size = ret.shape[0] + len(extra_rows)
         new_data = np.empty(new_size, dtype=object)
         new_data[:ret.shape[0]] = ret
-        new_data[ret.shape[0]:] = extra_rows
+        for i, row in enumerate(extra_rows):
+            new_data[ret.shape[0] + i] = row
         new_scan_positions = np.append(scan_positions,
                                        extra_scan_positions)
 
-- 
2.43.0


From afb9bab62833e83dbd59e65c2081ed04b02a481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 12/71] fix: do not relabel an existing file when saving
 electron counts onto it fails

---
 python/stempy/io/sparse_array.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index ff7aa55..e470ed9 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -264,11 +264,13 @@ class SparseArray:
 
         data = self.data
         with h5py.File(path, 'a') as f:
-            f.attrs['version'] = self.VERSION
-
             group = f.require_group('electron_events')
             scan_positions = group.create_dataset('scan_positions',
                                                   data=self.scan_positions)
+            # Set this after the first dataset was created, so that a file
+            # that already contains electron events is left as it was.
+            f.attrs['version'] = self.VERSION
+
             scan_positions.attrs['Nx'] = self.scan_shape[1]
             scan_positions.attrs['Ny'] = self.scan_shape[0]
 
-- 
2.43.0


From 863d9bb9fdb6acf2e777dd21934afd93d8e667f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 13/71] fix: save and load electron counts with a
 one-dimensional scan

---
 python/stempy/io/sparse_array.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index e470ed9..daa3269 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -198,7 +198,9 @@ class SparseArray:
 
             frames = f['electron_events/frames']
             scan_positions_group = f['electron_events/scan_positions']
-            scan_shape = [scan_positions_group.attrs[x] for x in ['Nx', 'Ny']]
+            # There is no 'Ny' if the scan is one-dimensional
+            scan_shape = [scan_positions_group.attrs[x] for x in ['Nx', 'Ny']
+                          if x in scan_positions_group.attrs]
             frame_shape = [frames.attrs[x] for x in ['Nx', 'Ny']]
 
             if keep_flyback:
@@ -271,8 +273,9 @@ class SparseArray:
             # that already contains electron events is left as it was.
             f.attrs['version'] = self.VERSION
 
-            scan_positions.attrs['Nx'] = self.scan_shape[1]
-            scan_positions.attrs['Ny'] = self.scan_shape[0]
+            scan_positions.attrs['Nx'] = self.scan_shape[-1]
+            if len(self.scan_shape) > 1:
+                scan_positions.attrs['Ny'] = self.scan_shape[0]
 
             # We can't store a 2D array that contains variable length arrays
             # in h5py currently. So flatten the data, and we will reshape it
-- 
2.43.0


From 1eb3d59659e2a61ded92db0cc1b271f991923be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 14/71] fix: dropping the flyback column of version 1 and 2
 electron counts

---
 python/stempy/io/sparse_array.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index daa3269..3fc667c 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -203,7 +203,7 @@ class SparseArray:
                           if x in scan_positions_group.attrs]
             frame_shape = [frames.attrs[x] for x in ['Nx', 'Ny']]
 
-            if keep_flyback:
+            if keep_flyback or version < 3:
                 data = frames[()] # load the full data set
                 scan_positions = scan_positions_group[()]
             else:
@@ -247,6 +247,13 @@ class SparseArray:
             }
             data = convert_data_format(**kwargs)
 
+            if not keep_flyback:
+                # The rows of the older versions are not ordered by scan
+                # position, so crop the flyback column after converting.
+                data = data.reshape((*scan_shape, -1))[:, :-1]
+                scan_shape = data.shape[:-1]
+                data = data.reshape((np.prod(scan_shape), -1))
+
         kwargs = {
             'data': data,
             'scan_shape': scan_shape,
-- 
2.43.0


From 4ce38fe04f22cc193b1ee275fd47c9dd4003125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 15/71] fix: saving electron counts when all frames have the
 same number of events

---
 python/stempy/io/sparse_array.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 3fc667c..73ca4a9 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -294,7 +294,14 @@ class SparseArray:
             frames.attrs['Nx'] = self.frame_shape[0]
             frames.attrs['Ny'] = self.frame_shape[1]
 
-            frames[...] = data.ravel()
+            flat = data.ravel()
+            if len({len(x) for x in flat}) > 1:
+                frames[...] = flat
+            else:
+                # h5py would treat frames which all have the same length
+                # as one regular array, and store something else.
+                for i, frame in enumerate(flat):
+                    frames[i] = frame
 
             # Write out the metadata
             save_dict_to_h5(self.metadata, f.require_group('metadata'))
-- 
2.43.0


From a894581eb41983097feb21139d58069bf49e2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 16/71] fix: accept a str as the directory to look up a scan in

---
 python/stempy/contrib/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index a63d631..8527a58 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -59,6 +59,7 @@ def get_scan_path_version_0(
     if scan_id is None and scan_num is None:
         raise TypeError("Either scan_num or scan_id must be provided.")
 
+    directory = Path(directory)
     filetype = suffix_to_filetype[file_suffix]
 
     file_pattern = ""
@@ -119,6 +120,7 @@ def get_scan_path_version_1(
     if scan_id is None and scan_num is None:
         raise TypeError("Either scan_num or scan_id must be provided.")
 
+    directory = Path(directory)
     file_pattern = ""
     filetype = suffix_to_filetype[file_suffix]
     if scan_id is not None:
-- 
2.43.0


From e0a1476291c1bfd57c1701660b7ce822dfe53b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 17/71] fix: only return files of the requested scan when
 looking up its path

---
 python/stempy/contrib/__init__.py | 34 +++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index 8527a58..f81854b 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -25,6 +25,17 @@ def check_only_one_filepath(file_path):
         raise FileNotFoundError("No file with those parameters can be found.")
 
 
+def _matches_version_0(parts, scan_num, scan_id, file_suffix):
+    if scan_id is not None and f"id{scan_id}" not in parts:
+        return False
+
+    if scan_num is not None and f"scan{scan_num}" not in parts:
+        return False
+
+    other_suffixes = [x.value.strip("_") for x in FileSuffix if x != file_suffix]
+    return parts[-1] not in other_suffixes
+
+
 def get_scan_path_version_0(
     directory: Path,
     scan_num: Optional[int] = None,
@@ -72,7 +83,12 @@ def get_scan_path_version_0(
             else f"data_scan{scan_num}*electrons{file_suffix.value}.{filetype}"
         )
 
-    file_path = list(directory.glob(file_pattern))
+    # The pattern may also match files of other scans (1 and 12, for example)
+    # or files with another suffix, so look at each part of the name.
+    file_path = [
+        x for x in directory.glob(file_pattern)
+        if _matches_version_0(x.stem.split("_"), scan_num, scan_id, file_suffix)
+    ]
 
     check_only_one_filepath(file_path)
 
@@ -87,6 +103,16 @@ def get_scan_path_version_0(
     return file_path, scan_num, scan_id
 
 
+def _matches_version_1(parts, scan_num, scan_id):
+    if len(parts) < 5:
+        return False
+
+    if scan_id is not None and parts[3] != str(scan_id).zfill(5):
+        return False
+
+    return scan_num is None or parts[4] == str(scan_num).zfill(5)
+
+
 def get_scan_path_version_1(
     directory: Path,
     scan_num: Optional[int] = None,
@@ -135,7 +161,11 @@ def get_scan_path_version_1(
             f"FOURD_*_*_{str(scan_num).zfill(5)}{file_suffix.value}.{filetype}"
         )
 
-    file_path = list(directory.glob(file_pattern))
+    file_path = [
+        x
+        for x in directory.glob(file_pattern)
+        if _matches_version_1(x.stem.split("_"), scan_num, scan_id)
+    ]
     check_only_one_filepath(file_path)
     file_path = file_path[0]
     spl = file_path.stem.split("_")
-- 
2.43.0


From e78c92b348e74f428a7b79a346d817bcd56e86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 18/71] fix: STEM images and electron counts of frames that are
 not square

---
 python/stempy/image/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index f75a322..2b1ea8c 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -80,7 +80,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
     elif isinstance(input, SparseArray):
         imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
                                          input.scan_shape[::-1],
-                                         input.frame_shape, center)
+                                         input.frame_shape[::-1], center)
     elif all([hasattr(input, x) for x in ecd_attrs]):
         # Handle electron counted data without C++ object
         # Assume this is v1 data and that each frame is one scan position
@@ -341,7 +341,8 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
     kwargs = {
         'data': np_data,
         'scan_shape': data.scan_dimensions[::-1],
-        'frame_shape': data.frame_dimensions,
+        # We treat the "shape" as having reversed axes than the "dimensions"
+        'frame_shape': data.frame_dimensions[::-1],
         'metadata': {'electron_counting': metadata},
     }
     array = SparseArray(**kwargs)
-- 
2.43.0


From 8d680418da54060c50b37eeccc97b213aacfee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 19/71] fix: STEM images of electron counts that were modified
 in place

---
 python/stempy/image/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 2b1ea8c..386f1b4 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -72,15 +72,16 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
         imgs = _image.create_stem_images(input.begin(), input.end(),
                                          inner_radii, outer_radii,
                                          scan_dimensions, center)
-    elif hasattr(input, '_electron_counted_data'):
-        # Handle electron counted data with C++ object
-        # This could also be a SparseArray created via electron_count()
-        imgs = _image.create_stem_images(input._electron_counted_data,
-                                         inner_radii, outer_radii, center)
     elif isinstance(input, SparseArray):
+        # This could also be a SparseArray created via electron_count(). Use
+        # its current data, which may have been modified in place since.
         imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
                                          input.scan_shape[::-1],
                                          input.frame_shape[::-1], center)
+    elif hasattr(input, '_electron_counted_data'):
+        # Handle electron counted data with C++ object
+        imgs = _image.create_stem_images(input._electron_counted_data,
+                                         inner_radii, outer_radii, center)
     elif all([hasattr(input, x) for x in ecd_attrs]):
         # Handle electron counted data without C++ object
         # Assume this is v1 data and that each frame is one scan position
-- 
2.43.0


From 45390b5539e426783ebd1d81e8a296ca76a7c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 20/71] fix: STEM images of electron counts with one frame per
 scan position

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 386f1b4..f3af3d6 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -88,7 +88,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
         data = input.data
         if data.ndim == 1:
             data = data[:, np.newaxis]
-        imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
+        imgs = _image.create_stem_images(data, inner_radii, outer_radii,
                                          input.scan_dimensions,
                                          input.frame_dimensions, center)
     elif isinstance(input, np.ndarray):
-- 
2.43.0


From e7e4a50b265b0bc6beece907503e7f2dc64d6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 21/71] fix: overflow of large radii of an annular mask

---
 stempy/mask.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stempy/mask.cpp b/stempy/mask.cpp
index 47bf6b9..ba42351 100644
--- a/stempy/mask.cpp
+++ b/stempy/mask.cpp
@@ -18,8 +18,9 @@ uint16_t* createAnnularMask(Dimensions2D dimensions, int innerRadius,
   if (center.second < 0)
     center.second = static_cast<int>(round(dimensions.second / 2.0));
 
-  innerRadius = static_cast<int>(pow(innerRadius, 2.0));
-  outerRadius = static_cast<int>(pow(outerRadius, 2.0));
+  // The square may be larger than the maximum int
+  auto innerSquared = pow(innerRadius, 2.0);
+  auto outerSquared = pow(outerRadius, 2.0);
 
   for (uint32_t i = 0; i < numberOfElements; ++i) {
     // Ensure these are signed ints so we don't underflow below
@@ -27,7 +28,7 @@ uint16_t* createAnnularMask(Dimensions2D dimensions, int innerRadius,
     int y = i / dimensions.first;
 
     auto d = pow((x - center.first), 2.0) + pow((y - center.second), 2.0);
-    mask[i] = d >= innerRadius && d < outerRadius ? 0xFFFF : 0;
+    mask[i] = d >= innerSquared && d < outerSquared ? 0xFFFF : 0;
   }
 
   return mask;
-- 
2.43.0


From c1888211aa093f137c36db9e80333b2193133b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 22/71] fix: STEM images of raw data with several frames per
 scan position

---
 stempy/image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index b2bb117..eac26b9 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -154,7 +154,9 @@ void _runCalculateSTEMValues(const uint16_t data[],
       calculateSTEMValues(data, offset,
                           numberOfPixels, mask, imageNumbers[i]);
 #endif
-    image.data.get()[imageNumbers[i]] = stemValues.data;
+    // There may be several frames for a scan position, which may be processed
+    // by different threads.
+    sync_fetch_and_add(image.data.get() + imageNumbers[i], stemValues.data);
   }
 }
 } // end namespace
-- 
2.43.0


From cc9f6eb7f601453101585a78a147bff82311884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 23/71] fix: histogram of STEM images must not lose the maximum

---
 stempy/image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index eac26b9..b68ca78 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -300,6 +300,9 @@ std::vector<double> getContainer(const STEMImage& inImage, const int numBins)
     container.push_back(min + i * length);
   }
 
+  // The edges are rounded, but the last one must not exclude the maximum
+  container.back() = max;
+
   return container;
 }
 
-- 
2.43.0


From 32a7e664d73ce24d2313f738c3e90b5cd157413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 24/71] fix: numpy view of blocks with frames that are not
 square

---
 python/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/io.cpp b/python/io.cpp
index 5e6c875..d3893bf 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -37,7 +37,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
@@ -58,7 +58,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
-- 
2.43.0


From 678555ad41c0dd65022406b4d8185e8780e800d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 25/71] fix: reading blocks from arrays that are not contiguous

---
 python/pyreader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index d287510..c9542d8 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -38,7 +38,10 @@ PyBlock PyReader::read()
   }
 
   auto sliceIndex = py::slice(m_currIndex, upperBound, 1);
-  py::array_t<uint16_t> pyarray = getItems(sliceIndex);
+  // We access the raw data, so it must be contiguous.
+  using CStyleArray =
+    py::array_t<uint16_t, py::array::c_style | py::array::forcecast>;
+  py::array_t<uint16_t> pyarray = CStyleArray(getItems(sliceIndex));
 
   PyBlock b(pyarray);
   Dimensions2D frameDimensions = { pyarray.shape()[2], pyarray.shape()[1] };
-- 
2.43.0


From 5057dfc2a65f476dfbcd995450cf6503d5166120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 26/71] fix: dark references and gains that are not contiguous

---
 python/stempy/image/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index f3af3d6..a2a0d5e 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -727,7 +727,9 @@ def _safe_cast(array, dtype, name=None):
     if np.any(new_array.astype(array.dtype) != array):
         msg = f'Cannot cast {name} to {dtype} without loss of precision'
         raise ValueError(msg)
-    return new_array
+
+    # The raw data is accessed in C++, so it must be contiguous
+    return np.ascontiguousarray(new_array)
 
 
 def phase_from_com(com, theta=0, flip=False, reg=1e-10):
-- 
2.43.0


From c27f98563ab9b15515a4f08a6f25fc7b99e35f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 27/71] fix: maximum diffraction pattern with a dark reference

---
 python/image.cpp |  9 +++++++--
 stempy/image.cpp | 12 ++++++------
 stempy/image.h   |  2 +-
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 894caad..c807ec7 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -590,7 +590,7 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(StreamReader::iterator, StreamReader::iterator,
-                          const Image<float>&)) &
+                          const Image<double>&)) &
           maximumDiffractionPattern<StreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
@@ -599,7 +599,7 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(SectorStreamReader::iterator,
-                          SectorStreamReader::iterator, const Image<float>&)) &
+                          SectorStreamReader::iterator, const Image<double>&)) &
           maximumDiffractionPattern<SectorStreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
@@ -607,6 +607,11 @@ PYBIND11_MODULE(_image, m)
                           SectorStreamReader::iterator)) &
           maximumDiffractionPattern<SectorStreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
+  m.def("maximum_diffraction_pattern",
+        (Image<double>(*)(PyReader::iterator, PyReader::iterator,
+                          const Image<double>&)) &
+          maximumDiffractionPattern<PyReader::iterator>,
+        py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(PyReader::iterator, PyReader::iterator)) &
           maximumDiffractionPattern<PyReader::iterator>,
diff --git a/stempy/image.cpp b/stempy/image.cpp
index b68ca78..e07e53b 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -587,7 +587,7 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
 
 template <typename InputIt>
 Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
-                                        const Image<float>& darkreference)
+                                        const Image<double>& darkreference)
 {
   auto frameDimensions = first->header.frameDimensions;
   auto numDetectorPixels = frameDimensions.first * frameDimensions.second;
@@ -625,7 +625,7 @@ template <typename InputIt>
 Image<double> maximumDiffractionPattern(InputIt first, InputIt last)
 {
   // Create empty dark reference
-  Image<float> dark;
+  Image<double> dark;
 
   return maximumDiffractionPattern(first, last, dark);
 }
@@ -679,16 +679,16 @@ template RadialSum<uint64_t> radialSum(PyReader::iterator first,
 
 template Image<double> maximumDiffractionPattern(
   StreamReader::iterator first, StreamReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   vector<Block>::iterator first, vector<Block>::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   SectorStreamReader::iterator first, SectorStreamReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   PyReader::iterator first, PyReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(StreamReader::iterator first,
                                                  StreamReader::iterator last);
 template Image<double> maximumDiffractionPattern(vector<Block>::iterator first,
diff --git a/stempy/image.h b/stempy/image.h
index bf95608..6df0159 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -136,7 +136,7 @@ namespace stempy {
 
   template <typename InputIt>
   Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
-                                          const Image<float>& darkreference);
+                                          const Image<double>& darkreference);
 
   template <typename InputIt>
   Image<double> maximumDiffractionPattern(InputIt first, InputIt last);
-- 
2.43.0


From cc4b40f4dd3a52187fb1a28e4473b654e1b67549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 28/71] fix: STEM images of events that are not contiguous in
 memory

---
 python/image.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/image.cpp b/python/image.cpp
index c807ec7..00e38db 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -214,12 +214,21 @@ ElectronCountedDataPyArray electronCount(Reader* reader,
   return electronCount(reader, options.toCpp());
 }
 
+// We access the raw data, so it must be contiguous
+using ContiguousEvents =
+  py::array_t<uint32_t, py::array::c_style | py::array::forcecast>;
+
 // Explicitly instantiate version for py::array_t
 template std::vector<STEMImage> createSTEMImages(
   const std::vector<std::vector<py::array_t<uint32_t>>>& sparseData,
   const std::vector<int>& innerRadii, const std::vector<int>& outerRadii,
   Dimensions2D scanDimensions, Dimensions2D frameDimensions,
   Coordinates2D center);
+template std::vector<STEMImage> createSTEMImages(
+  const std::vector<std::vector<ContiguousEvents>>& sparseData,
+  const std::vector<int>& innerRadii, const std::vector<int>& outerRadii,
+  Dimensions2D scanDimensions, Dimensions2D frameDimensions,
+  Coordinates2D center);
 
 } // namespace stempy
 
@@ -404,7 +413,7 @@ PYBIND11_MODULE(_image, m)
     py::call_guard<py::gil_scoped_release>());
   m.def("create_stem_images",
         (vector<STEMImage>(*)(
-          const std::vector<std::vector<py::array_t<uint32_t>>>&,
+          const std::vector<std::vector<ContiguousEvents>>&,
           const vector<int>&, const vector<int>&, Dimensions2D, Dimensions2D,
           Coordinates2D)) &
           createSTEMImages,
-- 
2.43.0


From a0941095a66ba1a349411defecaef87fdf1381f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 29/71] fix: reject sparse data with more positions than the
 STEM image

---
 stempy/image.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stempy/image.h b/stempy/image.h
index 6df0159..54ae04c 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -92,6 +92,13 @@ namespace stempy {
       throw std::invalid_argument(msg.str());
     }
 
+    if (sparseData.size() > static_cast<uint64_t>(scanDimensions.first) *
+                              scanDimensions.second) {
+      std::ostringstream msg;
+      msg << "The data has more scan positions than the scan dimensions!";
+      throw std::invalid_argument(msg.str());
+    }
+
     std::vector<STEMImage> images;
     std::vector<uint16_t*> masks;
     for (size_t i = 0; i < innerRadii.size(); ++i) {
-- 
2.43.0


From 7fa61fb1d1cab07b8539dfb6b4180df98251cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 30/71] fix: row dark of frames that are not square

---
 stempy/electron.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index f9e73df..0c79849 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -242,8 +242,8 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
                   double xRayThreshold, const float globalDark[],
                   const float gain[], bool useMean)
 {
-  auto height = frameDimensions.first;
-  auto width = frameDimensions.second;
+  auto width = frameDimensions.first;
+  auto height = frameDimensions.second;
 
   // If the width is an odd number, give the right side the extra one
   auto leftSize = width / 2;
-- 
2.43.0


From 65094091f3380d99dc1bcff9a5b6d7f5f83f03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 31/71] fix: electron counting of an iterator range without a
 dark reference

---
 stempy/electron.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 0c79849..10756f3 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -478,10 +478,10 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
           // Subtract darkfield reference and apply gain if we have one, this
           // will be based on our template type, it can be evaluated a compile
           // time.
-          if (std::is_integral<FrameType>::value) {
-            frame[j] -= darkReference[j];
-          } else {
-            frame[j] = (frame[j] - darkReference[j]) * gain[j];
+          static_if<dark>([&]() { frame[j] -= darkReference[j]; })();
+
+          if (!std::is_integral<FrameType>::value) {
+            frame[j] *= gain[j];
           }
           // Threshold the electron events
           if (frame[j] <= backgroundThreshold || frame[j] >= xRayThreshold) {
-- 
2.43.0


From 7e903c188c229b18a2f48188248ef519daf418cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 32/71] fix: dark subtraction in electron counting must not
 wrap around

---
 stempy/electron.cpp         | 23 ++++++++++++++++++-----
 stempy/electronthresholds.h | 24 ++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 10756f3..6b51dc8 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -280,14 +280,21 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
   }
 
   auto apply = [&](size_t start, size_t stop) {
+    if (start == stop) {
+      return;
+    }
+
     auto statResult = statFunc(frame, start, stop);
+    auto scale = statResult == 0 ? 0 : optimizedMean / statResult;
 
     for (size_t i = start; i < stop; ++i) {
       // Apply global dark if needed
-      static_if<applyGlobalDark>([&]() { frame[i] -= globalDark[i]; })();
+      static_if<applyGlobalDark>([&]() {
+        frame[i] = toFrameType<FrameType>(frame[i] - globalDark[i]);
+      })();
 
       // Apply row dark algorithm
-      frame[i] *= optimizedMean / statResult;
+      frame[i] = toFrameType<FrameType>(frame[i] * scale);
 
       // Apply gain if needed
       // This should be evaluated at compile-time
@@ -478,7 +485,9 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
           // Subtract darkfield reference and apply gain if we have one, this
           // will be based on our template type, it can be evaluated a compile
           // time.
-          static_if<dark>([&]() { frame[j] -= darkReference[j]; })();
+          static_if<dark>([&]() {
+            frame[j] = toFrameType<FrameType>(frame[j] - darkReference[j]);
+          })();
 
           if (!std::is_integral<FrameType>::value) {
             frame[j] *= gain[j];
@@ -542,8 +551,12 @@ std::vector<uint32_t> electronCount(
          j++) {
       // Subtract darkfield reference and apply gain if we have one, this will
       // be based on our template type, it can be evaluated a compile time.
-      static_if<dark>(
-        [&]() { frame[j] -= static_cast<FrameType>(darkReference[j]); })();
+      static_if<dark>([&]() {
+        auto value = std::is_integral<FrameType>::value
+                       ? std::trunc(darkReference[j])
+                       : darkReference[j];
+        frame[j] = toFrameType<FrameType>(frame[j] - value);
+      })();
 
       if (!std::is_integral<FrameType>::value) {
         frame[j] *= gain[j];
diff --git a/stempy/electronthresholds.h b/stempy/electronthresholds.h
index cdd3bc2..1ef87db 100644
--- a/stempy/electronthresholds.h
+++ b/stempy/electronthresholds.h
@@ -7,10 +7,34 @@
 #include <pybind11/numpy.h>
 #include <pybind11/pybind11.h>
 
+#include <cmath>
+#include <limits>
+#include <type_traits>
+
 namespace py = pybind11;
 
 namespace stempy {
 
+// Convert a corrected value to the type of the frame. Integers saturate, as
+// they must not wrap around when the value is below zero (or too large).
+template <typename FrameType>
+std::enable_if_t<std::is_integral<FrameType>::value, FrameType> toFrameType(
+  float value)
+{
+  if (!(value > 0)) {
+    return 0;
+  }
+  auto max = std::numeric_limits<FrameType>::max();
+  return value >= max ? max : static_cast<FrameType>(value);
+}
+
+template <typename FrameType>
+std::enable_if_t<!std::is_integral<FrameType>::value, FrameType> toFrameType(
+  float value)
+{
+  return value;
+}
+
 template <typename FrameType>
 struct CalculateThresholdsResults
 {
-- 
2.43.0


From 22a1de4d431cdcbafb119ec6f8a0eb9ea86e37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 33/71] fix: samples for the thresholds must not be truncated
 or wrap around

---
 stempy/electronthresholds.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 20d3396..253387e 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -100,17 +100,17 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
       // For now just use the index, the image number don't seem to work, in the
       // current data set. In the future we should be using the image number.
 
-      auto value = blockData[randomFrameIndex * numberOfPixels + j];
+      FrameType value = blockData[randomFrameIndex * numberOfPixels + j];
 
       // This will be evaluated a compile time.
       if (std::is_integral<FrameType>::value) {
-        static_if<dark>(
-          [&]() { value -= static_cast<int16_t>(darkReference[j]); })();
+        static_if<dark>([&]() {
+          value = toFrameType<FrameType>(value - std::trunc(darkReference[j]));
+        })();
       }
       // if not integral type then we know we have gain and need to multiple
       else {
-        static_if<dark>(
-          [&]() { value -= static_cast<float>(darkReference[j]); })();
+        static_if<dark>([&]() { value -= darkReference[j]; })();
         value *= gain[j];
       }
 
-- 
2.43.0


From c87c779a4475ea6a3a089e917a8df790da79a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 34/71] fix: thresholds of degenerate samples must not read or
 write out of bounds

---
 stempy/electronthresholds.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 253387e..01a1bc9 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -3,7 +3,9 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <random>
+#include <stdexcept>
 
 #include <Eigen/Dense>
 #include <unsupported/Eigen/LevenbergMarquardt>
@@ -77,6 +79,11 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma, const float gain[])
 {
+  if (blocks.empty() || numberOfSamples < 1) {
+    throw std::invalid_argument(
+      "At least one block and one sample are needed for the thresholds");
+  }
+
   auto frameDimensions = blocks[0].header.frameDimensions;
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
 
@@ -128,12 +135,25 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   auto minMax = std::minmax_element(samples.begin(), samples.end());
   auto minSample = *minMax.first;
   auto maxSample = static_cast<FrameType>(std::ceil(*minMax.second));
-  auto maxBin = std::min(static_cast<int>(maxSample),
-                         static_cast<int>(mean + xrayThreshold * stdDev));
-  auto minBin = std::max(static_cast<int>(minSample),
-                         static_cast<int>(mean - xrayThreshold * stdDev));
+  // Compare before converting, as the limits may be too large for an integer
+  auto upper = std::min(static_cast<double>(maxSample),
+                        mean + xrayThreshold * stdDev);
+  auto lower = std::max(static_cast<double>(minSample),
+                        mean - xrayThreshold * stdDev);
+
+  // This is also the case if the samples are not finite
+  const auto limit = std::numeric_limits<int>::max() / 2;
+  if (!(std::fabs(upper) < limit && std::fabs(lower) < limit)) {
+    throw std::runtime_error("The samples are out of range for a histogram");
+  }
 
+  auto maxBin = static_cast<int>(upper);
+  auto minBin = static_cast<int>(lower);
   auto numberOfBins = maxBin - minBin;
+  if (numberOfBins < 1) {
+    throw std::runtime_error("The samples do not vary enough for a histogram");
+  }
+
   std::vector<double> histogram(numberOfBins, 0.0);
   std::vector<double> bins(numberOfBins);
 
@@ -146,7 +166,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   for (int i = 0; i < numberSamplePixels; i++) {
     auto binIndex = static_cast<int>(samples[i] - minBin);
     // Skip values outside range
-    if (binIndex >= numberOfBins) {
+    if (binIndex < 0 || binIndex >= numberOfBins) {
       continue;
     }
     histogram[binIndex] += 1;
@@ -164,7 +184,8 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   Eigen::LevenbergMarquardt<GaussianErrorFunctor> solver(gef);
   solver.minimize(state);
 
-  if (solver.info() != Eigen::ComputationInfo::Success) {
+  if (solver.info() != Eigen::ComputationInfo::Success ||
+      !state.allFinite()) {
     throw std::runtime_error("Optimization did not converge");
   }
 
-- 
2.43.0


From ca8899fd23063d56007a38696098b663996acfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 35/71] fix: electron counting of frames with more than 65535
 rows or columns

---
 stempy/electron.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 6b51dc8..ac0caa9 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -336,7 +336,7 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
 }
 
 // Implementation of modulus that "wraps" for negative numbers
-inline uint16_t mod(uint16_t x, uint16_t y)
+inline uint32_t mod(uint32_t x, uint32_t y)
 {
   return ((x % y) + y) % y;
 }
-- 
2.43.0


From ee362ea0919787908799b0326b0ad7f36218941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 36/71] fix: do not release arrays of calculate_thresholds
 without the GIL

---
 python/image.cpp | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 00e38db..93cf7c3 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -137,7 +137,7 @@ struct ElectronCountOptionsPy
 
 template <typename BlockType>
 CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma)
 {
@@ -147,9 +147,9 @@ CalculateThresholdsResults<uint16_t> calculateThresholds(
 
 template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, const py::array_t<float>& gain)
 {
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -160,7 +160,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, Image<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, const py::array_t<float>& gain)
 {
   return calculateThresholds(blocks, darkReference.data.get(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -172,7 +172,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, int numberOfSamples,
   double backgroundThresholdNSigma, double xRayThresholdNSigma,
-  py::array_t<float> gain)
+  const py::array_t<float>& gain)
 {
 
   return calculateThresholds<BlockType, float, false>(
@@ -182,23 +182,23 @@ CalculateThresholdsResults<float> calculateThresholds(
 
 // Only dark reference
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 
 // Gain and darkreference
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, const py::array_t<float>& gain);
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, const py::array_t<float>& gain);
 
 template <typename InputIt>
 ElectronCountedDataPyArray electronCount(
@@ -503,25 +503,25 @@ PYBIND11_MODULE(_image, m)
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<Block>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double, const py::array_t<float>&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double, const py::array_t<float>&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              const py::array_t<float>&, int, double,
+                                              double, const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              const py::array_t<float>&, int, double,
+                                              double, const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
@@ -538,34 +538,34 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<Block>&, py::array_t<float>, int, double, double)) &
+          vector<Block>&, const py::array_t<float>&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<PyBlock>&, py::array_t<float>, int, double, double)) &
+          vector<PyBlock>&, const py::array_t<float>&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
   // Calculate thresholds, with gain and without darkreference
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const py::array_t<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
-- 
2.43.0


From d6fafe86386a77cb00af6ea5347bc0c42c621b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 37/71] fix: skip samples that are far outside of the histogram

---
 stempy/electronthresholds.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 01a1bc9..8144dba 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -143,7 +143,8 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
 
   // This is also the case if the samples are not finite
   const auto limit = std::numeric_limits<int>::max() / 2;
-  if (!(std::fabs(upper) < limit && std::fabs(lower) < limit)) {
+  if (!(std::isfinite(mean) && std::fabs(upper) < limit &&
+        std::fabs(lower) < limit)) {
     throw std::runtime_error("The samples are out of range for a histogram");
   }
 
@@ -164,12 +165,12 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
 
   // Bin the values
   for (int i = 0; i < numberSamplePixels; i++) {
-    auto binIndex = static_cast<int>(samples[i] - minBin);
+    double offset = samples[i] - minBin;
     // Skip values outside range
-    if (binIndex < 0 || binIndex >= numberOfBins) {
+    if (offset <= -1 || offset >= numberOfBins) {
       continue;
     }
-    histogram[binIndex] += 1;
+    histogram[static_cast<int>(offset)] += 1;
   }
 
   auto b = Eigen::Map<Eigen::VectorXd>(bins.data(), bins.size());
-- 
2.43.0


From e271e86e988f08dc3441af5c8901f6bac61d22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 38/71] verify: smaller detector with STEMPY_VERIFY_FRAME_SIZE

---
 stempy/reader.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 4292a91..af37f03 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -34,12 +34,24 @@ using Coordinates2D = std::pair<int, int>;
 // Convention is (width, height)
 using Dimensions2D = std::pair<uint32_t, uint32_t>;
 
+#ifndef STEMPY_VERIFY_FRAME_SIZE
 /// Currently the detector data is written in four sectors
 const Dimensions2D SECTOR_DIMENSIONS_VERSION_4 = { 144, 576 };
 const Dimensions2D SECTOR_DIMENSIONS_VERSION_5 = { 576, 144 };
 
 /// This is the detector size at  NCEM
 const Dimensions2D FRAME_DIMENSIONS = { 576, 576 };
+#else
+/// A smaller detector, so that its behaviour can be explored exhaustively
+const Dimensions2D SECTOR_DIMENSIONS_VERSION_4 = {
+  STEMPY_VERIFY_FRAME_SIZE / 4, STEMPY_VERIFY_FRAME_SIZE
+};
+const Dimensions2D SECTOR_DIMENSIONS_VERSION_5 = {
+  STEMPY_VERIFY_FRAME_SIZE, STEMPY_VERIFY_FRAME_SIZE / 4
+};
+const Dimensions2D FRAME_DIMENSIONS = { STEMPY_VERIFY_FRAME_SIZE,
+                                        STEMPY_VERIFY_FRAME_SIZE };
+#endif
 
 struct EofException : public std::exception
 {
-- 
2.43.0


From 72249574b820a4853354080a0d559e2a51c97b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 39/71] fix: raise an error when a file ends inside a block

---
 stempy/reader.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 7e0a090..d358576 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -111,11 +111,9 @@ istream & StreamReader::read(T* value, streamsize size){
 
   m_stream.read(reinterpret_cast<char*>(value), size);
 
-  // If we are at the end of the file, open up the next file
-  // and try again.
-  if (m_stream.eof()) {
-    openNextFile();
-    return read(value, size);
+  // A block is never split across files, so the file has been truncated
+  if (!m_stream) {
+    throw EofException();
   }
 
   return m_stream;
-- 
2.43.0


From 7ab0f5b799f3adf164f8a8f09bcb45ad9275169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 40/71] fix: do not read image numbers past the header of a
 version 1 block

---
 stempy/reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index d358576..9a6a4dd 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -136,6 +136,9 @@ Header StreamReader::readHeaderVersion1() {
   index += 5;
 
   // Now get the image numbers
+  if (header.imagesInBlock > static_cast<uint32_t>(1024 - index)) {
+    throw invalid_argument("Invalid number of images in block.");
+  }
   header.imageNumbers.resize(header.imagesInBlock);
   copy(headerData + index,
        headerData + index + header.imagesInBlock,
-- 
2.43.0


From cc7df3497b8f1ce832dc64268947b7adb02b9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 41/71] fix: drop partial frames when resetting a sector reader

---
 stempy/reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 9a6a4dd..cc9d125 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -563,6 +563,8 @@ void SectorStreamReader::reset()
     }
   }
   m_streams.clear();
+  // The frames will be read again
+  m_frameCache.clear();
   openFiles();
   m_streamsIterator = m_streams.begin();
 }
-- 
2.43.0


From 96be03b6f150a99af4ce29b0a526a2ff6d122e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 42/71] fix: do not merge sectors of different frames at the
 same scan position

---
 stempy/reader.cpp |  6 ++++--
 stempy/reader.h   | 10 +++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index cc9d125..3ca5b89 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -435,7 +435,8 @@ Block SectorStreamReader::read()
       auto header = readHeader();
       for (unsigned i = 0; i < header.imagesInBlock; i++) {
         auto pos = header.imageNumbers[i];
-        auto& frame = m_frameCache[pos];
+        auto frameKey = std::make_pair(pos, header.frameNumber);
+        auto& frame = m_frameCache[frameKey];
 
         // Do we need to allocate the frame
         if (frame.block.header.version == 0) {
@@ -444,6 +445,7 @@ Block SectorStreamReader::read()
           frame.block.header.scanDimensions = header.scanDimensions;
           frame.block.header.imagesInBlock = 1;
           frame.block.header.imageNumbers.push_back(pos);
+          frame.block.header.frameNumber = header.frameNumber;
           frame.block.header.frameDimensions = FRAME_DIMENSIONS;
           frame.block.data.reset(
             new uint16_t[frame.block.header.frameDimensions.first *
@@ -461,7 +463,7 @@ Block SectorStreamReader::read()
 
         if (frame.sectorCount == 4) {
           auto b = frame.block;
-          m_frameCache.erase(pos);
+          m_frameCache.erase(frameKey);
           m_streamsIterator++;
 
           return b;
diff --git a/stempy/reader.h b/stempy/reader.h
index af37f03..40b9183 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -253,7 +253,9 @@ protected:
     std::atomic<int> sectorCount = { 0 };
     std::mutex mutex;
   };
-  std::map<uint32_t, Frame> m_frameCache;
+  // The frames are keyed by the scan position and the frame number, as there can
+  // be multiple frames at a given position.
+  std::map<std::pair<uint32_t, uint32_t>, Frame> m_frameCache;
   std::vector<SectorStream> m_streams;
 
   Header readHeader(std::ifstream& stream);
@@ -422,8 +424,10 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
           auto pos = header.imageNumbers[j];
           auto frameNumber = header.frameNumber;
 
+          auto frameKey = std::make_pair(pos, frameNumber);
+
           std::unique_lock<std::mutex> cacheLock(m_cacheMutex);
-          auto& frame = m_frameCache[frameNumber];
+          auto& frame = m_frameCache[frameKey];
           cacheLock.unlock();
 
           // Do we need to allocate the frame, use a double check lock
@@ -459,7 +463,7 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
           if (++frame.sectorCount == 4) {
             cacheLock.lock();
             blocks.emplace_back(frame.block);
-            m_frameCache.erase(frameNumber);
+            m_frameCache.erase(frameKey);
             cacheLock.unlock();
           }
         }
-- 
2.43.0


From 3e9a5706446a26092a1e9e0eb93a971234200a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 43/71] fix: reject sector files without a valid module number

---
 stempy/reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 3ca5b89..0a7c62b 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -552,6 +552,12 @@ void SectorStreamReader::openFiles()
     }
 
     auto sector = extractSector(file);
+    if (sector < 0 || sector > 3) {
+      delete stream;
+      ostringstream msg;
+      msg << "Unable to determine the sector of file: " << file;
+      throw invalid_argument(msg.str());
+    }
 
     m_streams.emplace_back(stream, sector);
   }
-- 
2.43.0


From 859c260eedc27187890fdbb6dbd02bf4871d2f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 44/71] fix: handle truncated sector files

---
 stempy/reader.cpp | 65 +++++++++++++++++++++++++++++++++++++----------
 stempy/reader.h   | 41 ++++++++++++++++++++++--------
 2 files changed, 82 insertions(+), 24 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 0a7c62b..fde1a85 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -355,6 +355,11 @@ Header SectorStreamReader::readHeader(std::ifstream& stream)
   index = 0;
   read(stream, headerPositions, 4 * sizeof(uint16_t));
 
+  // The file has been truncated
+  if (!stream) {
+    return Header();
+  }
+
   header.scanDimensions.first = headerPositions[index++];
   header.scanDimensions.second = headerPositions[index++];
 
@@ -458,7 +463,10 @@ Block SectorStreamReader::read()
                     0);
         }
 
-        readSectorData(frame.block, sector);
+        // Skip the sector if it has been truncated
+        if (!readSectorData(frame.block, sector)) {
+          continue;
+        }
         frame.sectorCount++;
 
         if (frame.sectorCount == 4) {
@@ -479,37 +487,41 @@ Block SectorStreamReader::read()
   }
 
   // Now  return the partial frames
-  if (!m_frameCache.empty()) {
+  while (!m_frameCache.empty()) {
     auto iter = m_frameCache.begin();
     auto& frame = (*iter).second;
     auto block = frame.block;
+    int sectorCount = frame.sectorCount;
     m_frameCache.erase(iter);
 
-    return block;
+    // There is no data if all the sectors have been truncated
+    if (sectorCount != 0) {
+      return block;
+    }
   }
 
   return Block();
 }
 
-void SectorStreamReader::readSectorData(std::ifstream& stream, Block& block,
+bool SectorStreamReader::readSectorData(std::ifstream& stream, Block& block,
                                         int sector)
 {
   if (version() == 4) {
-    readSectorDataVersion4(stream, block, sector);
+    return readSectorDataVersion4(stream, block, sector);
   } else {
-    readSectorDataVersion5(stream, block, sector);
+    return readSectorDataVersion5(stream, block, sector);
   }
 }
 
-void SectorStreamReader::readSectorData(Block& block, int sector)
+bool SectorStreamReader::readSectorData(Block& block, int sector)
 {
   auto& sectorStream = *m_streamsIterator;
   auto& stream = sectorStream.stream;
 
-  readSectorData(*stream.get(), block, sector);
+  return readSectorData(*stream.get(), block, sector);
 }
 
-void SectorStreamReader::readSectorDataVersion4(std::ifstream& stream,
+bool SectorStreamReader::readSectorDataVersion4(std::ifstream& stream,
                                                 Block& block, int sector)
 {
   auto frameX = sector * SECTOR_DIMENSIONS_VERSION_4.first;
@@ -518,17 +530,36 @@ void SectorStreamReader::readSectorDataVersion4(std::ifstream& stream,
     read(stream, block.data.get() + offset,
          SECTOR_DIMENSIONS_VERSION_4.first * sizeof(uint16_t));
   }
+
+  if (!stream) {
+    // Don't leave a part of the sector behind
+    for (unsigned frameY = 0; frameY < FRAME_DIMENSIONS.second; frameY++) {
+      auto offset = FRAME_DIMENSIONS.first * frameY + frameX;
+      std::fill_n(block.data.get() + offset, SECTOR_DIMENSIONS_VERSION_4.first,
+                  0);
+    }
+    return false;
+  }
+
+  return true;
 }
 
-void SectorStreamReader::readSectorDataVersion5(std::ifstream& stream,
+bool SectorStreamReader::readSectorDataVersion5(std::ifstream& stream,
                                                 Block& block, int sector)
 {
   auto frameY = sector * SECTOR_DIMENSIONS_VERSION_5.second;
   auto offset = frameY * FRAME_DIMENSIONS.first;
 
-  read(stream, block.data.get() + offset,
-       SECTOR_DIMENSIONS_VERSION_5.first * SECTOR_DIMENSIONS_VERSION_5.second *
-         sizeof(uint16_t));
+  auto size =
+    SECTOR_DIMENSIONS_VERSION_5.first * SECTOR_DIMENSIONS_VERSION_5.second;
+
+  if (!read(stream, block.data.get() + offset, size * sizeof(uint16_t))) {
+    // Don't leave a part of the sector behind
+    std::fill_n(block.data.get() + offset, size, 0);
+    return false;
+  }
+
+  return true;
 }
 
 void SectorStreamReader::openFiles()
@@ -599,6 +630,10 @@ void SectorStreamReader::readAll(Functor func)
         break;
       }
       auto header = readHeader(stream);
+      if (header.imagesInBlock == 0) {
+        // The file has been truncated
+        break;
+      }
       auto skip = [&stream, &header]() {
         auto dataSize = header.frameDimensions.first *
                         header.frameDimensions.second * header.imagesInBlock;
@@ -880,6 +915,10 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
     while (stream->peek() != EOF) {
       // First read the header
       auto header = readHeader(*stream);
+      if (header.imagesInBlock == 0) {
+        // The file has been truncated
+        break;
+      }
       auto dataSize = header.frameDimensions.first *
                       header.frameDimensions.second * header.imagesInBlock;
 
diff --git a/stempy/reader.h b/stempy/reader.h
index 40b9183..86dc073 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -258,8 +258,11 @@ protected:
   std::map<std::pair<uint32_t, uint32_t>, Frame> m_frameCache;
   std::vector<SectorStream> m_streams;
 
+  // Read the header of the next sector, it has no images if the file has been
+  // truncated
   Header readHeader(std::ifstream& stream);
-  void readSectorData(std::ifstream& stream, Block& block, int sector);
+  // Returns false, without changing the block, if the file has been truncated
+  bool readSectorData(std::ifstream& stream, Block& block, int sector);
 
 private:
   std::vector<std::string> m_files;
@@ -272,7 +275,7 @@ private:
   bool atEnd() const { return m_streams.empty(); }
 
   Header readHeader();
-  void readSectorData(Block& block, int sector);
+  bool readSectorData(Block& block, int sector);
   template <typename T>
   std::istream& read(T& value);
   template <typename T>
@@ -290,8 +293,8 @@ private:
   void toHdf5DataCubeFormat(h5::H5ReadWrite& writer);
 #endif // ENABLE_HDF5
 
-  void readSectorDataVersion4(std::ifstream& stream, Block& block, int sector);
-  void readSectorDataVersion5(std::ifstream& stream, Block& block, int sector);
+  bool readSectorDataVersion4(std::ifstream& stream, Block& block, int sector);
+  bool readSectorDataVersion5(std::ifstream& stream, Block& block, int sector);
 };
 
 inline SectorStreamReader::SectorStreamReader(const std::string& path,
@@ -457,7 +460,10 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
             }
           }
 
-          readSectorData(*stream, frame.block, sector);
+          // Skip the sector if it has been truncated
+          if (!readSectorData(*stream, frame.block, sector)) {
+            continue;
+          }
 
           // Now now have the complete frame
           if (++frame.sectorCount == 4) {
@@ -651,9 +657,12 @@ void SectorStreamMultiPassThreadedReader::processFrame(
     if (sectorLocation.sectorStream != nullptr) {
       auto sectorStream = sectorLocation.sectorStream;
       std::unique_lock<std::mutex> lock(*sectorStream->mutex.get());
+      // A truncated sector leaves the stream in a failed state
+      sectorStream->stream->clear();
       sectorStream->stream->seekg(sectorLocation.offset);
-      readSectorData(*sectorStream->stream, b, j);
-      sectors++;
+      if (readSectorData(*sectorStream->stream, b, j)) {
+        sectors++;
+      }
     }
   }
 
@@ -711,10 +720,19 @@ inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
     return;
   }
 
-  auto stream = m_streams[0].stream.get();
-  auto header = readHeader(*stream);
-  // Reset the stream
-  stream->seekg(0);
+  // Use the first file that is not empty
+  Header header;
+  for (auto& sectorStream : m_streams) {
+    auto stream = sectorStream.stream.get();
+    header = readHeader(*stream);
+    // Reset the stream
+    stream->clear();
+    stream->seekg(0);
+
+    if (header.imagesInBlock != 0) {
+      break;
+    }
+  }
 
   // Resize the vector to hold the frame sector locations for the scan
   m_scanMapSize = header.scanDimensions.first * header.scanDimensions.second;
@@ -762,6 +780,7 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
 
   // Reset the streams
   for (auto& sectorStream : this->m_streams) {
+    sectorStream.stream->clear();
     sectorStream.stream->seekg(0);
   }
 
-- 
2.43.0


From e6b09fba3d14beaf8ac596286e0525898ed6e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 45/71] fix: do not count truncated sectors as captured data

---
 stempy/reader.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index fde1a85..a16a462 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -637,7 +637,9 @@ void SectorStreamReader::readAll(Functor func)
       auto skip = [&stream, &header]() {
         auto dataSize = header.frameDimensions.first *
                         header.frameDimensions.second * header.imagesInBlock;
-        stream.seekg(dataSize * sizeof(uint16_t), stream.cur);
+        // Read the last byte, to know whether the sector has been truncated
+        stream.seekg(dataSize * sizeof(uint16_t) - 1, stream.cur);
+        return stream.get() != EOF;
       };
 
       auto block = [&stream, &header]() -> Block {
@@ -664,15 +666,20 @@ float SectorStreamReader::dataCaptured()
                                                   auto& skip, auto& block) {
     (void)block;
     (void)sector;
-    numberOfSectors++;
     scanDimensions = header.scanDimensions;
-    skip();
+    if (skip()) {
+      numberOfSectors++;
+    }
   };
 
   readAll(func);
 
   auto expectedNumberOfSectors =
-    scanDimensions.first * scanDimensions.second * 4;
+    static_cast<uint64_t>(scanDimensions.first) * scanDimensions.second * 4;
+
+  if (expectedNumberOfSectors == 0) {
+    return 0;
+  }
 
   return static_cast<float>(numberOfSectors) / expectedNumberOfSectors;
 }
-- 
2.43.0


From d54d3ca2d815f4de9e8005befd5cc8dca26d4f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 46/71] fix: mark the frames of the threaded reader as complete

---
 stempy/reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 86dc073..521a745 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -468,6 +468,7 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
           // Now now have the complete frame
           if (++frame.sectorCount == 4) {
             cacheLock.lock();
+            frame.block.header.complete.push_back(true);
             blocks.emplace_back(frame.block);
             m_frameCache.erase(frameKey);
             cacheLock.unlock();
-- 
2.43.0


From 6219eb18f0bf468a097a32e7287eabe3dc414c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 47/71] fix: data race on the streams of the threaded reader

---
 stempy/reader.cpp | 6 ++++++
 stempy/reader.h   | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index a16a462..dd7dbfb 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -848,6 +848,12 @@ void SectorStreamThreadedReader::initNumberOfThreads()
   }
 }
 
+bool SectorStreamThreadedReader::allStreamsRead()
+{
+  std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
+  return m_streams.empty();
+}
+
 bool SectorStreamThreadedReader::nextStream(StreamQueueEntry& streamQueueEntry)
 {
   {
diff --git a/stempy/reader.h b/stempy/reader.h
index 521a745..f616178 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -390,6 +390,7 @@ private:
 
   void initNumberOfThreads();
   bool nextStream(StreamQueueEntry& entry);
+  bool allStreamsRead();
 };
 
 template <typename Functor>
@@ -409,7 +410,7 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(m_pool->enqueue([this, &func]() {
 
-      while (!m_streams.empty()) {
+      while (!allStreamsRead()) {
         // Get the next stream to read from
         StreamQueueEntry streamQueueEntry;
 
-- 
2.43.0


From 95b7b9fef8e757503221233ef92e685d73615e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 48/71] fix: allow to read everything more than once with a
 threaded reader

---
 stempy/reader.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index f616178..ea331f8 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -397,6 +397,7 @@ template <typename Functor>
 std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 {
   m_pool = std::make_unique<ThreadPool>(m_threads);
+  m_futures.clear();
 
   auto streamsIterator = m_streams.begin();
 
@@ -496,6 +497,10 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 
   // Return a future that is resolved once the processing is complete
   auto complete = std::async(std::launch::deferred, [this]() {
+    // All workers have to finish, even if one of them failed
+    for (auto& future : this->m_futures) {
+      future.wait();
+    }
     for (auto& future : this->m_futures) {
       future.get();
     }
@@ -854,6 +859,10 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
   initializePool();
   initializeScanMap();
 
+  // The reader may have been used before
+  m_futures.clear();
+  m_processed = m_scanMapOffset;
+
   // Now enqueue lambda's to read the frames and run processing
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(
@@ -862,6 +871,10 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
 
   // Return a future that is resolved once the processing is complete
   auto complete = std::async(std::launch::deferred, [this]() {
+    // All workers have to finish, even if one of them failed
+    for (auto& future : this->m_futures) {
+      future.wait();
+    }
     for (auto& future : this->m_futures) {
       future.get();
     }
-- 
2.43.0


From 3d9e75e68ca787e772c695fd0c4c36be46ef0873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 49/71] fix: reject sectors outside of the scan

---
 stempy/reader.cpp |  5 +++++
 stempy/reader.h   | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index dd7dbfb..1bcee7f 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -936,6 +936,11 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
                       header.frameDimensions.second * header.imagesInBlock;
 
       auto imageNumber = header.imageNumbers[0];
+      if (imageNumber >= m_scanMap.size()) {
+        ostringstream msg;
+        msg << "Scan position " << imageNumber << " is outside of the scan.";
+        throw std::runtime_error(msg.str());
+      }
       auto& frameMaps = m_scanMap[imageNumber];
 
       // Protect initialization of the map with the correct mutex
diff --git a/stempy/reader.h b/stempy/reader.h
index ea331f8..4ee7866 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -775,7 +775,17 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
 
   // Wait for all files to be processed
   for (auto& future : this->m_futures) {
-    future.get();
+    future.wait();
+  }
+  try {
+    for (auto& future : this->m_futures) {
+      future.get();
+    }
+  } catch (...) {
+    // Don't use an incomplete map later
+    m_futures.clear();
+    m_scanMap.clear();
+    throw;
   }
 
 #ifdef USE_MPI
-- 
2.43.0


From 8099a8247a05151d16441637212a3540921e1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 50/71] fix: rewinding a multi pass reader

---
 stempy/reader.cpp |  7 +++++++
 stempy/reader.h   | 25 +++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 1bcee7f..f1ca21e 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -909,6 +909,13 @@ SectorStreamMultiPassThreadedReader::SectorStreamMultiPassThreadedReader(
 #endif
 }
 
+void SectorStreamMultiPassThreadedReader::reset()
+{
+  // The scan map has pointers to the streams
+  m_scanMap.clear();
+  SectorStreamReader::reset();
+}
+
 // Read the headers and save the locations of the blocks to form the "frame
 // maps"
 void SectorStreamMultiPassThreadedReader::readHeaders()
diff --git a/stempy/reader.h b/stempy/reader.h
index 4ee7866..9ebdb36 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -209,14 +209,14 @@ public:
   SectorStreamReader(const std::string& path, uint8_t version = 5);
   SectorStreamReader(const std::vector<std::string>& files,
                      uint8_t version = 5);
-  ~SectorStreamReader();
+  virtual ~SectorStreamReader();
 
   Block read();
   template <typename Functor>
   void readAll(Functor f);
 
   // Reset to the start of the first file
-  void reset();
+  virtual void reset();
 
   float dataCaptured();
 
@@ -256,6 +256,7 @@ protected:
   // The frames are keyed by the scan position and the frame number, as there can
   // be multiple frames at a given position.
   std::map<std::pair<uint32_t, uint32_t>, Frame> m_frameCache;
+  std::vector<std::string> m_files;
   std::vector<SectorStream> m_streams;
 
   // Read the header of the next sector, it has no images if the file has been
@@ -265,8 +266,6 @@ protected:
   bool readSectorData(std::ifstream& stream, Block& block, int sector);
 
 private:
-  std::vector<std::string> m_files;
-
   std::vector<SectorStream>::iterator m_streamsIterator;
 
   uint8_t m_version;
@@ -542,6 +541,8 @@ public:
   SectorStreamMultiPassThreadedReader(const std::vector<std::string>& files,
                                       int threads = -1);
 
+  void reset() override;
+
   template <typename Functor>
   std::future<void> readAll(Functor& f);
 
@@ -727,6 +728,10 @@ inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
     return;
   }
 
+  if (m_streams.size() != m_files.size()) {
+    reset();
+  }
+
   // Use the first file that is not empty
   Header header;
   for (auto& sectorStream : m_streams) {
@@ -750,6 +755,12 @@ inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
 inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
 {
   initializePool();
+
+  // Streams are removed when reading sequentially, so open them again
+  if (m_streams.size() != m_files.size()) {
+    reset();
+  }
+
   readFirstHeader();
 
   if (!m_scanMap.empty()) {
@@ -759,6 +770,12 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
 
   m_scanMap.resize(m_scanMapSize);
 
+  // The streams may have been used to read sequentially
+  for (auto& sectorStream : this->m_streams) {
+    sectorStream.stream->clear();
+    sectorStream.stream->seekg(0);
+  }
+
   // Allocate the mutexes
   m_scanPositionMutexes.clear();
   for (unsigned i = 0; i < m_scanMapSize; i++) {
-- 
2.43.0


From 83becc052066e0ed9793ae2d2d45c4389c75f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 51/71] fix: data race when counting the sample frames,
 positions outside of the scan

---
 stempy/electron.cpp | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index ac0caa9..d1c3045 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -645,6 +645,11 @@ ElectronCountedData electronCount(Reader* reader,
         applyRowDarkUseMean);
 
       auto position = b.header.imageNumbers[i];
+      if (position >= events.size()) {
+        std::ostringstream msg;
+        msg << "Scan position " << position << " is outside of the scan.";
+        throw std::out_of_range(msg.str());
+      }
       auto& eventsForPosition = events[position];
       // Find the mutex for this position and lock it
       auto& mutex = positionMutexes[position];
@@ -769,37 +774,16 @@ ElectronCountedData electronCount(Reader* reader,
   lock.unlock();
   sampleCondition.notify_all();
 
-  // lambda to process sample and incomplete blocks
-  auto countExtraBlock = [&events, &backgroundThreshold, &xRayThreshold,
-                          darkReference, gain, applyRowDarkSubtraction,
-                          optimizedMean, applyRowDarkUseMean] (Block& b) {
-    auto data = b.data.get();
-    auto frameDimensions = b.header.frameDimensions;
-    for (unsigned j = 0; j < b.header.imagesInBlock; j++) {
-      auto frameStart =
-        data + j * frameDimensions.first * frameDimensions.second;
-      std::vector<FrameType> frame(frameStart,
-                                   frameStart + frameDimensions.first *
-                                                  frameDimensions.second);
-      auto frameEvents = electronCount<FrameType, dark>(
-        frame, frameDimensions, darkReference, backgroundThreshold,
-        xRayThreshold, gain, applyRowDarkSubtraction, optimizedMean,
-        applyRowDarkUseMean);
-      auto position = b.header.imageNumbers[j];
-      events[position].push_back(std::move(frameEvents));
-    }
-  };
-
-  // Count the sample blocks
+  // Count the sample blocks, the workers are counting at the same time
   for (auto i = 0; i < thresholdNumberOfBlocks; i++) {
     auto& b = sampleBlocks[i];
-    countExtraBlock(b);
+    countBlock(b);
   }
 
   // Count the incomplete blocks
   for (size_t i = 0; i < incompleteBlocks.size(); i++) {
     auto& b = incompleteBlocks[i];
-    countExtraBlock(b);
+    countBlock(b);
   }
 
   // Make sure all threads are finished before returning the result
-- 
2.43.0


From 5c717047fc2fe9c7e35323177622b7f55fd04b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 52/71] fix: threaded electron counting must not hang or crash
 without thresholds

---
 stempy/electron.cpp | 76 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 12 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index d1c3045..1b7ada3 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -13,6 +13,8 @@
 #include <vtkm/worklet/WorkletPointNeighborhood.h>
 #endif
 
+#include <functional>
+#include <future>
 #include <sstream>
 #include <stdexcept>
 
@@ -589,6 +591,11 @@ ElectronCountedData electronCount(Reader* reader,
   auto applyRowDarkSubtraction = options.applyRowDarkSubtraction;
   auto applyRowDarkUseMean = options.applyRowDarkUseMean;
 
+  if (thresholdNumberOfBlocks < 1) {
+    throw std::invalid_argument(
+      "At least one block is needed to calculate the thresholds.");
+  }
+
   // This is where we will save the electron events as the calculated
   // Outer vector is scan position, middle vector is a frame at that
   // scan position, and inner vector is the electron counted data for
@@ -602,6 +609,10 @@ ElectronCountedData electronCount(Reader* reader,
   // collecting samples to calculate threshold.
   std::atomic<bool> electronCounting = { false };
 
+  // Used to signal that there are no thresholds, so the workers should finish
+  // without counting.
+  std::atomic<bool> aborted = { false };
+
   // These hold the optimized thresholds.
   double backgroundThreshold;
   double xRayThreshold;
@@ -659,9 +670,9 @@ ElectronCountedData electronCount(Reader* reader,
     }
   };
 
-  auto counter = [&events, &electronCounting, &sampleMutex, &sampleCondition,
-                  &sampleBlocks, &incompleteBlocks, thresholdNumberOfBlocks,
-                  &countBlock](Block& b) {
+  auto counter = [&events, &electronCounting, &aborted, &sampleMutex,
+                  &sampleCondition, &sampleBlocks, &incompleteBlocks,
+                  thresholdNumberOfBlocks, &countBlock](Block& b) {
     // If we are still collecting sample block for calculating the threshold
     if (!electronCounting) {
       std::unique_lock<std::mutex> sampleLock(sampleMutex);
@@ -686,11 +697,14 @@ ElectronCountedData electronCount(Reader* reader,
       // We have our samples, so we should wait for the threshold to be
       // calculated in the main thread, before we can start counting.
       else {
-        sampleCondition.wait(sampleLock, [&electronCounting]() {
-          return electronCounting.load();
+        sampleCondition.wait(sampleLock, [&electronCounting, &aborted]() {
+          return electronCounting.load() || aborted.load();
         });
+        sampleLock.unlock();
         // Make sure we count the block.
-        countBlock(b);
+        if (electronCounting) {
+          countBlock(b);
+        }
       }
     }
     // We are electron counting
@@ -701,12 +715,48 @@ ElectronCountedData electronCount(Reader* reader,
 
   auto done = reader->readAll(counter);
 
+  // Waits for the workers in the background, as they may finish without having
+  // found enough blocks. Its destructor waits as well, so that no worker is
+  // using the variables above when we return or throw.
+  bool finished = false;
+  auto workers = std::async(
+    std::launch::async, [&done, &finished, &sampleMutex, &sampleCondition]() {
+      done.wait();
+      std::unique_lock<std::mutex> lock(sampleMutex);
+      finished = true;
+      sampleCondition.notify_all();
+    });
+
   // Wait for enough blocks to come in to calculate the threshold.
   std::unique_lock<std::mutex> lock(sampleMutex);
-  sampleCondition.wait(lock, [&sampleBlocks, thresholdNumberOfBlocks]() {
-    return sampleBlocks.size() ==
-           static_cast<unsigned>(thresholdNumberOfBlocks);
-  });
+  sampleCondition.wait(
+    lock, [&sampleBlocks, &finished, thresholdNumberOfBlocks]() {
+      return finished || sampleBlocks.size() ==
+                           static_cast<unsigned>(thresholdNumberOfBlocks);
+    });
+
+  if (sampleBlocks.size() < static_cast<unsigned>(thresholdNumberOfBlocks)) {
+    lock.unlock();
+    // A worker may have failed
+    workers.wait();
+    done.get();
+    throw std::runtime_error(
+      "There are not enough complete frames to calculate the thresholds.");
+  }
+
+  // Let the workers finish, rather than wait for the thresholds, in case of an
+  // error.
+  struct AbortGuard
+  {
+    std::function<void()> abort;
+    ~AbortGuard() { abort(); }
+  } abortGuard = { [&lock, &aborted, &sampleCondition]() {
+    if (lock.owns_lock()) {
+      aborted = true;
+      lock.unlock();
+      sampleCondition.notify_all();
+    }
+  } };
 
   auto calculateThreshold = true;
 
@@ -786,8 +836,10 @@ ElectronCountedData electronCount(Reader* reader,
     countBlock(b);
   }
 
-  // Make sure all threads are finished before returning the result
-  done.wait();
+  // Make sure all threads are finished before returning the result, and report
+  // if any of them failed.
+  workers.wait();
+  done.get();
 
 #ifdef USE_MPI
   gatherEvents(worldSize, rank, events);
-- 
2.43.0


From 5c450cb415972fe92231b57faa4ea46c49dfc222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 53/71] fix: radial sum must not be used by its workers after
 an error

---
 stempy/image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index e07e53b..4463d14 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -532,9 +532,10 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
   // the disk in the main thread.
   // We benchmarked this on a 10 core computer, and typically found
   // 2 threads to be ideal.
+  // The pool has to be destroyed first, as its threads are using the sum.
   int numThreads = 2;
-  ThreadPool pool(numThreads);
   RadialSum<uint64_t> radialSum(scanDimensions, maxRadius + 1);
+  ThreadPool pool(numThreads);
 
 #ifdef VTKm
   // We need the reinterpret_cast as vtkm currently doesn't support atomic
-- 
2.43.0


From 43fa904d29468848c8b5aee4c5795d8e7438f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 54/71] fix: reject images outside of the scan

---
 stempy/electron.cpp |  7 +++++++
 stempy/image.cpp    | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 1b7ada3..0067e7c 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -461,6 +461,13 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
     auto block = std::move(*first);
     auto data = block.data.get();
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
+      if (block.header.imageNumbers[i] >= events.size()) {
+        std::ostringstream msg;
+        msg << "Image number " << block.header.imageNumbers[i]
+            << " is outside of the scan.";
+        throw std::invalid_argument(msg.str());
+      }
+
       auto frameStart =
         data + i * frameDimensions.first * frameDimensions.second;
       std::vector<FrameType> frame(frameStart,
diff --git a/stempy/image.cpp b/stempy/image.cpp
index 4463d14..ebb3a75 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -119,6 +119,22 @@ STEMValues calculateSTEMValuesParallel(
 }
 #endif
 
+namespace {
+// Raise an exception if a block has images that are outside of the scan
+void checkImageNumbers(const Header& header, Dimensions2D scanDimensions)
+{
+  auto numberOfScanPositions =
+    static_cast<uint64_t>(scanDimensions.first) * scanDimensions.second;
+  for (auto imageNumber : header.imageNumbers) {
+    if (imageNumber >= numberOfScanPositions) {
+      ostringstream msg;
+      msg << "Image number " << imageNumber << " is outside of the scan.";
+      throw invalid_argument(msg.str());
+    }
+  }
+}
+} // end namespace
+
 // These should be ran by separate threads
 namespace {
 #ifdef VTKm
@@ -237,6 +253,7 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
     // Move the block into the thread by copying... CUDA 10.1 won't allow
     // us to do something like "pool.enqueue([ b{ std::move(*first) }, ...])"
     auto b = std::move(*first);
+    checkImageNumbers(b.header, scanDimensions);
 
     for (size_t i = 0; i < masks.size(); ++i) {
       auto& image = images[i];
@@ -551,6 +568,8 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
     // Move the block into the thread by copying... CUDA 10.1 won't allow
     // us to do something like "pool.enqueue([ b{ std::move(*first) }, ...])"
     auto b = std::move(*first);
+    checkImageNumbers(b.header, scanDimensions);
+
     // Instead of calling _runCalculateSTEMValues directly, we use a
     // lambda so that we can explicity delete the block. Otherwise,
     // the block will not be deleted until the threads are destroyed.
-- 
2.43.0


From 3066e34712bc66b75295a40a25f9a0a3c6614250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 55/71] fix: reading the headers again with a multi pass reader

---
 stempy/reader.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 9ebdb36..64c3f0e 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -785,6 +785,9 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
   // Reset counter
   m_processed = m_streamsOffset;
 
+  // The reader may have been used before
+  m_futures.clear();
+
   // Enqueue lambda's to read headers to build up the locations of the sectors
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(m_pool->enqueue([this]() { readHeaders(); }));
-- 
2.43.0


From d9824c3229fe5067b977cae3a572d80424947189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 56/71] fix: streams left in the queue of the threaded reader
 after an error

---
 stempy/reader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 64c3f0e..eaffe78 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -397,6 +397,8 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 {
   m_pool = std::make_unique<ThreadPool>(m_threads);
   m_futures.clear();
+  // There may be streams left after an error
+  m_streamQueue = decltype(m_streamQueue)();
 
   auto streamsIterator = m_streams.begin();
 
-- 
2.43.0


From 046e4ffe1bc3a4758e2ac232c4715ff9cc5d6303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 57/71] fix: reject histograms without bins

---
 stempy/image.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index ebb3a75..81f7746 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -298,6 +298,10 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
 // returns the binding result
 std::vector<double> getContainer(const STEMImage& inImage, const int numBins)
 {
+  if (numBins < 1) {
+    throw std::invalid_argument("The number of bins must be positive");
+  }
+
   // information about input STEMImage
   auto scanDimensions = inImage.dimensions;
   auto curData = inImage.data;
@@ -329,6 +333,10 @@ std::vector<int> createSTEMHistogram(const STEMImage& inImage,
                                      const int numBins,
                                      const std::vector<double> bins)
 {
+  if (numBins < 1 || bins.size() != static_cast<size_t>(numBins) + 1) {
+    throw std::invalid_argument("The bins do not match the number of bins");
+  }
+
   // initialize output
   std::vector<int> frequencies(numBins, 0);
 
-- 
2.43.0


From d73e9c35c8cfd4d2df480ef6c07c1c3132a6428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 58/71] fix: reject dark references of another size for the
 maximum diffraction pattern

---
 stempy/image.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index 81f7746..9a78946 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -619,6 +619,11 @@ Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
 {
   auto frameDimensions = first->header.frameDimensions;
   auto numDetectorPixels = frameDimensions.first * frameDimensions.second;
+  if (darkreference.dimensions.first > 0 &&
+      darkreference.dimensions != frameDimensions) {
+    throw std::invalid_argument(
+      "The dark reference must have the size of the frames");
+  }
   Image<double> maxDiffPattern(frameDimensions);
 
   std::fill(maxDiffPattern.data.get(),
-- 
2.43.0


From fa075c5280f06cf90964f4bb1ad748322c1b490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 59/71] fix: dark references that were derived from an image

---
 python/stempy/image/__init__.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index a2a0d5e..7aa3291 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -175,8 +175,9 @@ class ImageArray(np.ndarray):
         return obj
 
     def __array_finalize__(self, obj):
-        if obj is None: return
-        self._image = getattr(obj, '_image', None)
+        # Views and results of operations on an image do not have the content
+        # of its C++ object.
+        self._image = None
 
 
 def calculate_average(reader):
@@ -277,7 +278,7 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
         for i in range(threshold_num_blocks):
             blocks.append(next(reader))
 
-        if darkreference is not None and hasattr(darkreference, '_image'):
+        if getattr(darkreference, '_image', None) is not None:
             darkreference = darkreference._image
 
         args = [[b._block for b in blocks]]
@@ -390,14 +391,23 @@ def maximum_diffraction_pattern(reader, darkreference=None):
     :return: the maximum diffraction pattern.
     :rtype: stempy.image.ImageArray
     """
-    if darkreference is not None:
-        darkreference = darkreference._image
-        image = _image.maximum_diffraction_pattern(reader.begin(), reader.end(), darkreference)
+    dark_image = getattr(darkreference, '_image', None)
+    if isinstance(darkreference, _image._image_double):
+        dark_image = darkreference
+
+    if dark_image is not None:
+        image = _image.maximum_diffraction_pattern(reader.begin(), reader.end(), dark_image)
     else:
         image = _image.maximum_diffraction_pattern(reader.begin(), reader.end())
     img = ImageArray(safe_array(image, copy=False))
     img._image = image
 
+    if darkreference is not None and dark_image is None:
+        # An array that is not the content of a C++ object
+        if np.shape(darkreference) != img.shape:
+            raise ValueError('The dark reference must have the size of the frames')
+        img -= np.asarray(darkreference)
+
     return img
 
 
-- 
2.43.0


From b3c52f0e06e620246273359ce59afd8cd54a732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 60/71] fix: reject frames without image numbers when reading
 from a dataset

---
 python/pyreader.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index c9542d8..33235a9 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -1,6 +1,8 @@
 #include "pyreader.h"
 #include <stempy/reader.h>
 
+#include <stdexcept>
+
 namespace stempy {
 
 PyBlock::PyBlock(py::array_t<uint16_t> pyarray)
@@ -17,6 +19,13 @@ PyReader::PyReader(py::object pyDataSet, std::vector<uint32_t>& imageNumbers,
     m_imageNumbers(imageNumbers), m_imageNumInBlock(blockSize),
     m_totalImageNum(totalImageNum)
 {
+  if (m_imageNumInBlock == 0) {
+    throw std::invalid_argument("The block size must not be 0");
+  }
+
+  if (m_imageNumbers.size() < m_totalImageNum) {
+    throw std::invalid_argument("There are fewer image numbers than images");
+  }
 }
 
 PyBlock PyReader::read()
@@ -43,6 +52,10 @@ PyBlock PyReader::read()
     py::array_t<uint16_t, py::array::c_style | py::array::forcecast>;
   py::array_t<uint16_t> pyarray = CStyleArray(getItems(sliceIndex));
 
+  if (pyarray.ndim() != 3 || pyarray.shape()[0] < upperBound - m_currIndex) {
+    throw std::invalid_argument("The dataset doesn't contain all the images");
+  }
+
   PyBlock b(pyarray);
   Dimensions2D frameDimensions = { pyarray.shape()[2], pyarray.shape()[1] };
 
-- 
2.43.0


From f7f9baeaa9db940716d61172ccb5f192f7f21aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 61/71] fix: local median of bad sectors at the border of the
 scan

---
 python/stempy/image/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 7aa3291..cbcaba8 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -649,8 +649,10 @@ def filter_bad_sectors(com, cut_off):
     x, y = np.where(_)
 
     for ii, jj in zip(x, y):
-        com[0, ii, jj] = np.nanmedian(com[0, ii - 1:ii + 2, jj - 1:jj + 2])
-        com[1, ii, jj] = np.nanmedian(com[1, ii - 1:ii + 2, jj - 1:jj + 2])
+        # The neighborhood is cropped at the first row and column
+        local = (slice(max(ii - 1, 0), ii + 2), slice(max(jj - 1, 0), jj + 2))
+        com[0, ii, jj] = np.nanmedian(com[0][local])
+        com[1, ii, jj] = np.nanmedian(com[1][local])
     return com
 
 def com_dense(frames):
-- 
2.43.0


From 7a453865be99ca1cf8e1544636784a8bca314dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 62/71] fix: copying scan binning shared its events with the
 original

---
 python/stempy/io/sparse_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 73ca4a9..5e489f9 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -625,8 +625,9 @@ class SparseArray:
             self.data = new_data
             return self
 
+        # The copy must not share the events with the current array
         kwargs = {
-            'data': new_data,
+            'data': copy.deepcopy(new_data),
             'scan_shape': new_scan_shape,
             'frame_shape': self.frame_shape,
             'dtype': self.dtype,
-- 
2.43.0


From 82f898899d7ec26bcaf9c203d3587f4e23c4bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 63/71] fix: MPI ranks without sample blocks crashed when
 counting electrons

---
 stempy/electron.cpp     | 17 +++++++++++++----
 stempy/electron.h       |  2 ++
 stempy/electron_mpi.cpp | 15 +++++++++++++++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 0067e7c..ce19729 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -814,13 +814,22 @@ ElectronCountedData electronCount(Reader* reader,
 #endif
 
   // Now setup  electron count output
-  auto frameSize = sampleBlocks[0].header.frameDimensions;
+  Dimensions2D frameSize = { 0, 0 };
 
-  // If we haven't been provided with width and height, try the header.
-  if (scanDimensions.first == 0 || scanDimensions.second == 0) {
-    scanDimensions = sampleBlocks[0].header.scanDimensions;
+  // There may be no sample block on this rank
+  if (!sampleBlocks.empty()) {
+    frameSize = sampleBlocks[0].header.frameDimensions;
+
+    // If we haven't been provided with width and height, try the header.
+    if (scanDimensions.first == 0 || scanDimensions.second == 0) {
+      scanDimensions = sampleBlocks[0].header.scanDimensions;
+    }
   }
 
+#ifdef USE_MPI
+  broadcastDimensions(frameSize, scanDimensions);
+#endif
+
   auto numberOfScanPositions = scanDimensions.first * scanDimensions.second;
   events.resize(numberOfScanPositions);
   // Allocate mutexes to protect the event vector at each scan position
diff --git a/stempy/electron.h b/stempy/electron.h
index 4b9fd5f..cba879a 100644
--- a/stempy/electron.h
+++ b/stempy/electron.h
@@ -81,6 +81,8 @@ void gatherBlocks(int worldSize, int rank, std::vector<Block>& blocks);
 void gatherEvents(int worldSize, int rank, Events& events);
 void broadcastThresholds(double& background, double& xRay,
                          double& optimizedMean);
+void broadcastDimensions(Dimensions2D& frameDimensions,
+                         Dimensions2D& scanDimensions);
 
 #endif
 }
diff --git a/stempy/electron_mpi.cpp b/stempy/electron_mpi.cpp
index bf9463c..61251d2 100644
--- a/stempy/electron_mpi.cpp
+++ b/stempy/electron_mpi.cpp
@@ -197,6 +197,21 @@ void broadcastThresholds(double& background, double& xRay,
   optimizedMean = thresholds[2];
 }
 
+void broadcastDimensions(Dimensions2D& frameDimensions,
+                         Dimensions2D& scanDimensions)
+{
+  std::vector<uint64_t> dimensions = { frameDimensions.first,
+                                       frameDimensions.second,
+                                       scanDimensions.first,
+                                       scanDimensions.second };
+
+  MPI_Bcast(dimensions.data(), dimensions.size(), MPI_UINT64_T, 0,
+            MPI_COMM_WORLD);
+
+  frameDimensions = { dimensions[0], dimensions[1] };
+  scanDimensions = { dimensions[2], dimensions[3] };
+}
+
 int getSampleBlocksPerRank(int worldSize, int rank, int thresholdNumberOfBlocks)
 {
   auto sampleBlocksPerRank = thresholdNumberOfBlocks / worldSize;
-- 
2.43.0


From d8464f9708ef76bcbb3ed5205a81064e95019ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 64/71] fix: MPI ranks took over scan positions of others after
 a reset or with no share of the scan

---
 stempy/reader.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stempy/reader.h b/stempy/reader.h
index eaffe78..0366786 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -725,7 +725,7 @@ inline void SectorStreamMultiPassThreadedReader::initializePool()
 
 inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
 {
-  if (m_scanMapSize != 0) {
+  if (m_scanDimensions.first != 0 && m_scanDimensions.second != 0) {
     // We must have already read the first header. Don't do it again.
     return;
   }
@@ -748,8 +748,6 @@ inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
     }
   }
 
-  // Resize the vector to hold the frame sector locations for the scan
-  m_scanMapSize = header.scanDimensions.first * header.scanDimensions.second;
   m_scanDimensions = header.scanDimensions;
   m_scanNumber = header.scanNumber;
 }
@@ -770,6 +768,9 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
     return;
   }
 
+  // Resize the vector to hold the frame sector locations for the scan
+  m_scanMapOffset = 0;
+  m_scanMapSize = m_scanDimensions.first * m_scanDimensions.second;
   m_scanMap.resize(m_scanMapSize);
 
   // The streams may have been used to read sequentially
-- 
2.43.0


From 140e9b3d234785c6302a68f8f745b2ec7f4f7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 65/71] fix: reading an attribute with several values into a
 single one overflowed the stack

---
 h5cpp/h5readwrite.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index aa11199..9868ea8 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -104,6 +104,15 @@ public:
     return info.num_attrs > 0;
   }
 
+  // Whether an open attribute has exactly one value
+  bool hasSingleValue(hid_t attr)
+  {
+    hid_t space = H5Aget_space(attr);
+    HIDCloser spaceCloser(space, H5Sclose);
+
+    return H5Sget_simple_extent_npoints(space) == 1;
+  }
+
   bool attribute(const string& path, const string& name, void* value,
                  hid_t dataTypeId, hid_t memTypeId)
   {
@@ -130,6 +139,12 @@ public:
       return false;
     }
 
+    // There is only room for one value
+    if (!hasSingleValue(attr)) {
+      cerr << "Attribute " << path << name << " is not a single value!" << endl;
+      return false;
+    }
+
     return H5Aread(attr, memTypeId, value) >= 0;
   }
 
@@ -637,6 +652,13 @@ string H5ReadWrite::attribute<string>(const string& path, const string& name,
     cerr << path << name << " is not a string" << endl;
     return result;
   }
+
+  // There is only room for one value
+  if (!m_impl->hasSingleValue(attr)) {
+    cerr << "Attribute " << path << name << " is not a single value!" << endl;
+    return result;
+  }
+
   char* tmpString;
   int is_var_str = H5Tis_variable_str(type);
   if (is_var_str > 0) { // if it is a variable-length string
-- 
2.43.0


From 04e2321e4f185c5a793849c4d973391ccc346d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 66/71] fix: a variable-length string attribute that was never
 written crashed

---
 h5cpp/h5readwrite.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index 9868ea8..3653ac4 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -666,8 +666,11 @@ string H5ReadWrite::attribute<string>(const string& path, const string& name,
       cerr << "Failed to read attribute " << path << " " << name << endl;
       return result;
     }
-    result = tmpString;
-    free(tmpString);
+    // A string that was never written is null
+    if (tmpString) {
+      result = tmpString;
+      free(tmpString);
+    }
   } else if (is_var_str == 0) { // If it is not a variable-length string
     // it must be fixed length since the "is a string" check earlier passed.
     size_t size = H5Tget_size(type);
-- 
2.43.0


From 25d8943ae8f3921f9e471594df21d0403e46eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:52 +0000
Subject: [PATCH 67/71] fix: reject blocks with frames of different sizes

---
 stempy/electron.cpp           |  4 ++++
 stempy/electronthresholds.cpp |  7 +++++++
 stempy/image.cpp              | 13 +++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index ce19729..1f3ac42 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -459,6 +459,10 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
 
   for (; first != last; ++first) {
     auto block = std::move(*first);
+    if (block.header.frameDimensions != frameDimensions) {
+      throw std::invalid_argument(
+        "All blocks must have frames of the same size");
+    }
     auto data = block.data.get();
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
       if (block.header.imageNumbers[i] >= events.size()) {
diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 8144dba..9813b63 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -87,6 +87,13 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   auto frameDimensions = blocks[0].header.frameDimensions;
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
 
+  for (const auto& block : blocks) {
+    if (block.header.frameDimensions != frameDimensions) {
+      throw std::invalid_argument(
+        "All blocks must have frames of the same size");
+    }
+  }
+
   // Setup random number engine
   std::random_device randomDevice;
   std::default_random_engine randomEngine(randomDevice());
diff --git a/stempy/image.cpp b/stempy/image.cpp
index 9a78946..bc2674b 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -133,6 +133,15 @@ void checkImageNumbers(const Header& header, Dimensions2D scanDimensions)
     }
   }
 }
+
+// Raise an exception if the frames of a block have another size than those of
+// the first block
+void checkFrameDimensions(const Header& header, Dimensions2D frameDimensions)
+{
+  if (header.frameDimensions != frameDimensions) {
+    throw invalid_argument("All blocks must have frames of the same size");
+  }
+}
 } // end namespace
 
 // These should be ran by separate threads
@@ -254,6 +263,7 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
     // us to do something like "pool.enqueue([ b{ std::move(*first) }, ...])"
     auto b = std::move(*first);
     checkImageNumbers(b.header, scanDimensions);
+    checkFrameDimensions(b.header, frameDimensions);
 
     for (size_t i = 0; i < masks.size(); ++i) {
       auto& image = images[i];
@@ -382,6 +392,7 @@ Image<double> calculateAverage(InputIt first, InputIt last)
   uint64_t numberOfImages = 0;
   for (; first != last; ++first) {
     auto block = std::move(*first);
+    checkFrameDimensions(block.header, frameDimensions);
     auto blockData = block.data.get();
     numberOfImages += block.header.imagesInBlock;
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
@@ -577,6 +588,7 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
     // us to do something like "pool.enqueue([ b{ std::move(*first) }, ...])"
     auto b = std::move(*first);
     checkImageNumbers(b.header, scanDimensions);
+    checkFrameDimensions(b.header, frameDimensions);
 
     // Instead of calling _runCalculateSTEMValues directly, we use a
     // lambda so that we can explicity delete the block. Otherwise,
@@ -631,6 +643,7 @@ Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
   uint64_t numberOfImages = 0;
   for (; first != last; ++first) {
     auto block = std::move(*first);
+    checkFrameDimensions(block.header, frameDimensions);
     auto blockData = block.data.get();
     numberOfImages += block.header.imagesInBlock;
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
-- 
2.43.0


From 70eff2166b61ecadbc9838427a894375a0d70e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:20 +0000
Subject: [PATCH 68/71] fix: reject dark references and gains of another size
 when counting electrons

---
 python/image.cpp | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/python/image.cpp b/python/image.cpp
index 93cf7c3..5da189b 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -135,12 +135,47 @@ struct ElectronCountOptionsPy
   }
 };
 
+// Raise an exception if a dark reference or gain doesn't have the size of the
+// frames
+void checkSize(const py::array_t<float>& reference,
+               Dimensions2D frameDimensions)
+{
+  if (reference.size() !=
+      static_cast<ssize_t>(frameDimensions.first) * frameDimensions.second) {
+    throw std::invalid_argument(
+      "The dark reference and gain must have the size of the frames");
+  }
+}
+
+template <typename BlockType>
+void checkSize(const py::array_t<float>& reference,
+               const std::vector<BlockType>& blocks)
+{
+  if (!blocks.empty()) {
+    checkSize(reference, blocks[0].header.frameDimensions);
+  }
+}
+
+template <typename Options>
+void checkSizes(const Options& options, Dimensions2D frameDimensions)
+{
+  // A single value stands for having none
+  if (options.darkReference.size() > 1) {
+    checkSize(options.darkReference, frameDimensions);
+  }
+  if (options.gain.size() > 1) {
+    checkSize(options.gain, frameDimensions);
+  }
+}
+
 template <typename BlockType>
 CalculateThresholdsResults<uint16_t> calculateThresholds(
   std::vector<BlockType>& blocks, const py::array_t<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma)
 {
+  checkSize(darkReference, blocks);
+
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma);
 }
@@ -151,6 +186,9 @@ CalculateThresholdsResults<float> calculateThresholds(
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma, const py::array_t<float>& gain)
 {
+  checkSize(darkReference, blocks);
+  checkSize(gain, blocks);
+
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
                              gain.data());
@@ -162,6 +200,8 @@ CalculateThresholdsResults<float> calculateThresholds(
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma, const py::array_t<float>& gain)
 {
+  checkSize(gain, blocks);
+
   return calculateThresholds(blocks, darkReference.data.get(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
                              gain.data());
@@ -174,6 +214,7 @@ CalculateThresholdsResults<float> calculateThresholds(
   double backgroundThresholdNSigma, double xRayThresholdNSigma,
   const py::array_t<float>& gain)
 {
+  checkSize(gain, blocks);
 
   return calculateThresholds<BlockType, float, false>(
     blocks, nullptr, numberOfSamples, backgroundThresholdNSigma,
@@ -204,6 +245,10 @@ template <typename InputIt>
 ElectronCountedDataPyArray electronCount(
   InputIt first, InputIt last, const ElectronCountOptionsClassicPy& options)
 {
+  if (first != last) {
+    checkSizes(options, first->header.frameDimensions);
+  }
+
   return electronCount(first, last, options.toCpp());
 }
 
@@ -211,6 +256,8 @@ template <typename Reader>
 ElectronCountedDataPyArray electronCount(Reader* reader,
                                          const ElectronCountOptionsPy& options)
 {
+  checkSizes(options, FRAME_DIMENSIONS);
+
   return electronCount(reader, options.toCpp());
 }
 
-- 
2.43.0


From b4562feac334b6da2b8644fb8a0baa926ee67442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 69/71] fix: reject events outside of the frame in STEM images

---
 stempy/image.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stempy/image.h b/stempy/image.h
index 54ae04c..a11ae00 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -99,6 +99,20 @@ namespace stempy {
       throw std::invalid_argument(msg.str());
     }
 
+    auto numberOfPixels =
+      static_cast<uint64_t>(frameDimensions.first) * frameDimensions.second;
+    for (const auto& frames : sparseData) {
+      for (const auto& events : frames) {
+        for (size_t i = 0; i < static_cast<size_t>(events.size()); ++i) {
+          if (events.data()[i] >= numberOfPixels) {
+            std::ostringstream msg;
+            msg << "The data has events outside of the frame dimensions!";
+            throw std::invalid_argument(msg.str());
+          }
+        }
+      }
+    }
+
     std::vector<STEMImage> images;
     std::vector<uint16_t*> masks;
     for (size_t i = 0; i < innerRadii.size(); ++i) {
-- 
2.43.0


From c474c86d86af3582652ea50ac636569e82344e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 70/71] fix: reject frames without pixels when calculating
 thresholds

---
 stempy/electronthresholds.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 9813b63..901eeaa 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -87,6 +87,10 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   auto frameDimensions = blocks[0].header.frameDimensions;
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
 
+  if (numberOfPixels == 0) {
+    throw std::invalid_argument("The frames have no pixels");
+  }
+
   for (const auto& block : blocks) {
     if (block.header.frameDimensions != frameDimensions) {
       throw std::invalid_argument(
-- 
2.43.0


From f55bcb38848245c6843f002e08fb9930db2624d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:13 +0000
Subject: [PATCH 71/71] fix: distances to events in narrow integer types
 wrapped around

---
 python/stempy/image/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index cbcaba8..d7ac72a 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -538,7 +538,7 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
     for scan_position, frames in enumerate(array.data):
         # Combine the sparse arrays into one array.
         # This takes care of multiple frames per probe position
-        ev = np.hstack(frames)
+        ev = np.hstack(frames).astype(np.int64)
 
         if len(ev) > 0:
             x = ev // array.frame_shape[1]
@@ -855,6 +855,8 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
+            # The distances do not fit into narrow integer types
+            ev = ev.astype(np.int64)
             ev_rows = ev // array.frame_shape[1]
             ev_cols = ev % array.frame_shape[1]
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
-- 
2.43.0

