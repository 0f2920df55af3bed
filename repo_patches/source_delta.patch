From 7fbb627194689a1aa3b2ce8f617bdaf7fa447e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 01/32] fix: value layers exchange buffers correctly for any
 process grid, origin and periodic border

The buffered ranges were derived from the sender's neighbor ordering and assumed
a zero origin, so that with periodic borders and two ranks in a dimension, one
rank in a dimension, or bounds not starting at 0 buffer values were missing or
belonged to other cells. ReadWriteValueLayer queried the write layer's neighbors.
---
 src/repast4py/value_layer.py | 532 ++++++++++-------------------------
 1 file changed, 151 insertions(+), 381 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 921f9c6..3a53b4e 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -421,41 +421,6 @@ class ValueLayer:
         return self.impl.get_nghs(pt)
 
 
-def _compute_meta_data_counts(meta_data, num_dims, offset, num_slices):
-    """Depending on the dimensions, borders and ranks of a SharedValueLayer, the size
-    of the metadata (data used to synchronize among ranks) arrays is different. This
-    computes the size of the arrays.
-    """
-    if num_slices == 1:
-        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]), 1, meta_data)
-    elif num_slices == 2:
-        # return meta_data[:, 0] + meta_data[:, offset]
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims]) + np.prod(row[offset: offset + num_dims]), 1, meta_data)
-    elif num_slices == 3:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims]),
-            1, meta_data)
-    elif num_slices == 4:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims]),
-            1, meta_data)
-    elif num_slices == 6:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims])
-            + np.prod(row[offset * 4: offset * 4 + num_dims])
-            + np.prod(row[offset * 5: offset * 5 + num_dims]),
-            1, meta_data)
-
-
 class SharedValueLayer(ValueLayer):
     """A cross-process shared N-dimensional raster type matrix where each discrete integer coordinate
     contains a numeric value.
@@ -498,7 +463,7 @@ class SharedValueLayer(ValueLayer):
 
         # add buffer to local bounds
         self.local_bounds = topo.local_bounds
-        if comm.Get_size() > 1:
+        if comm.Get_size() > 1 or self.periodic:
             self._init_buffered_bounds(bounds, buffer_size, self.periodic)
         else:
             self.buffered_bounds = self.local_bounds
@@ -510,20 +475,22 @@ class SharedValueLayer(ValueLayer):
         if nd == 3:
             raise ValueError("3D SharedValueLayer is not yet supported")
 
-        mins = [bounds.xmin, bounds.ymin, bounds.zmin]
+        # translation from a location to its index in the grid: the local area
+        # starts after any buffer on its lower side.
+        mins = [self.local_bounds.xmin, self.local_bounds.ymin]
+        for i in range(0, nd):
+            self.impl.pt_translation[i] = self.non_buff_grid_offsets[i * 2] - mins[i]
+
         self.buffer_self = []
         if self.periodic:
-            for i in range(0, nd):
-                if self.impl.pt_translation[i] == 0:
-                    self.impl.pt_translation[i] = buffer_size - mins[i]
-
-            if len(self.procs_per_dim) == 1 and self.procs_per_dim[0] == 1:
-                self.buffer_self.append(self._buffer_self_X)
-
-            if len(self.procs_per_dim) == 2:
+            # locations wrap at the full bounds, and not at those of this rank
+            self.impl.borders = GridPeriodicBorders(bounds)
+            self.impl.min_max = np.array([bounds.xmin, bounds.xmin + bounds.xextent - 1,
+                                          bounds.ymin, bounds.ymin + bounds.yextent - 1])
+            if buffer_size > 0:
                 if self.procs_per_dim[0] == 1:
                     self.buffer_self.append(self._buffer_self_X)
-                if self.procs_per_dim[1] == 1:
+                if nd == 2 and self.procs_per_dim[1] == 1:
                     self.buffer_self.append(self._buffer_self_Y)
         self._init_value(init_value, nd)
         self._buffer_self()
@@ -533,6 +500,57 @@ class SharedValueLayer(ValueLayer):
             comm.Barrier()
             self._synch_ghosts()
 
+    def _to_idx(self, locations, dim: int):
+        """Translates the locations in the specified dimension to grid indices. Locations that
+        are buffered across a periodic border are translated to their index in the buffer.
+        """
+        idx = locations + self.impl.pt_translation[dim]
+        if self.periodic:
+            full_extent = self.full_bounds.xextent if dim == 0 else self.full_bounds.yextent
+            grid_extent = self.grid.shape[-1 - dim]
+            idx = np.where(idx < 0, idx + full_extent, np.where(idx >= grid_extent, idx - full_extent, idx))
+        return idx
+
+    def _grid_idx(self, locations):
+        """Gets the grid index (in row major order) from the x, y ordered locations."""
+        return tuple(self._to_idx(locations[dim], dim) for dim in reversed(range(self.grid.dim())))
+
+    def get(self, pt: DiscretePoint):
+        """Gets the value at the specified point
+
+        Args:
+            pt: the location to get the value of
+
+        Returns:
+            The value at the specified location.
+        """
+        self.impl.borders._transform(pt, self.impl.tpt)
+        return self.grid[self._grid_idx(self.impl.tpt.coordinates)]
+
+    def set(self, pt: DiscretePoint, val):
+        """Sets the value at the specified location
+
+        Args:
+            pt: the location to set the value of
+            val: the value to set the location to
+        """
+        self.impl.borders._transform(pt, self.impl.tpt)
+        self.grid[self._grid_idx(self.impl.tpt.coordinates)] = val
+
+    def get_nghs(self, pt: DiscretePoint) -> Tuple:
+        """Gets the neighboring values and locations around the specified point.
+
+        Args:
+            pt: the point whose neighbors to get
+
+        Returns:
+            Tuple: A two elelment tuple consisting of the neighboring values as a pytorch tensor, and
+            the neighboring locations as a np.array: (values, ngh_locations). The first value in
+            the values tensor is the value of the first location in the ngh_locations array, and so forth.
+        """
+        nghs = self.impl.ngh_finder(pt.coordinates, self.impl.min_max)
+        return (self.grid[self._grid_idx(np.atleast_2d(nghs))], nghs)
+
     def _init_value(self, init_value, nd: int):
         if init_value != 'random':
             lb = self.local_bounds
@@ -552,45 +570,30 @@ class SharedValueLayer(ValueLayer):
                     self.grid[z1: z2, y1: y2, x1: x2] = init_value
 
     def _buffer_self_X(self):
-        # left
-        left = self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, self.buffer_size: self.buffer_size * 2]
+        # the last dimension of the grid is x, all rows are copied so that the
+        # corners are buffered when this is followed by _buffer_self_Y
+        b = self.buffer_size
         # set right buffer to left unbuffered
-        self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, -self.buffer_size:] = left
-        right = self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, -self.buffer_size * 2: -self.buffer_size]
+        self.grid[..., -b:] = self.grid[..., b: b * 2]
         # set left buffer to right unbuffered
-        self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, 0: self.buffer_size] = right
+        self.grid[..., 0: b] = self.grid[..., -b * 2: -b]
 
     def _buffer_self_Y(self):
-        # unbuffered top area
-        top = self.grid[self.buffer_size: self.buffer_size * 2, self.buffer_size: self.buffer_size + self.local_bounds.xextent]
+        b = self.buffer_size
+        # all the columns, including the corners received from neighbors in x
         # set bottom buffer to top unbuffered
-        self.grid[-self.buffer_size:, self.buffer_size: self.buffer_size + self.local_bounds.xextent] = top
-        bottom = self.grid[-self.buffer_size * 2: -self.buffer_size, self.buffer_size: self.buffer_size + self.local_bounds.xextent]
-        self.grid[0: self.buffer_size, self.buffer_size: self.buffer_size + self.local_bounds.xextent] = bottom
+        self.grid[-b:] = self.grid[b: b * 2]
+        # set top buffer to bottom unbuffered
+        self.grid[0: b] = self.grid[-b * 2: -b]
 
     def _buffer_self(self):
         for func in self.buffer_self:
             func()
 
-    def _wrap_slice_vals(self, start_val, end_val, full_extent, local_extent, procs_per_dim):
-        if procs_per_dim > 1:
-            if start_val < 0:
-                start_val += full_extent
-                end_val += full_extent
-            elif start_val >= full_extent:
-                start_val -= full_extent
-                end_val -= full_extent
-
-        elif start_val == local_extent and self.periodic:
-            start_val = start_val + self.buffer_size
-            end_val = end_val + self.buffer_size
-
-        return (start_val, end_val)
-
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
-        xmin, xextent = 0, 0
-        ymin, yextent = 0, 0
-        zmin, zextent = 0, 0
+        xmin, xextent = self.local_bounds.xmin, self.local_bounds.xextent
+        ymin, yextent = self.local_bounds.ymin, self.local_bounds.yextent
+        zmin, zextent = self.local_bounds.zmin, self.local_bounds.zextent
         # offsets from buffered grid into the local grid data
         self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
@@ -668,324 +671,91 @@ class SharedValueLayer(ValueLayer):
         # bounds including the buffer if necessary
         self.buffered_bounds = BoundingBox(xmin, xextent, ymin, yextent, zmin, zextent)
 
-    def _init_sync_data_1d(self, topo, buffer_size):
-        ngh_buffers = []
-        # create send_counts, send_displs, and send_buf
-        r_trans = self.impl.pt_translation[0]
-        for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
-            # convert bounds into grid slices, row major'ing and
-            # applying the pt translations.
-            row = bounds[0] + r_trans
-            # origin + extent
-            shape = (bounds[1] - bounds[0],)
-            stop_row = row + shape[0]
-            ngh_buffers.append(
-                (ngh_rank, shape[0], shape, bounds, (slice(row, stop_row),)))
-
-        ngh_buffers.sort(key=lambda data: data[0])
-        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
+    def _recv_range(self, start, stop, local_min, local_extent, full_extent):
+        """Gets the range covered in this layer by the specified range of a
+        neighbor's locations, where that is either the same as the local area's, or
+        that of a buffer on the lower or upper side of the local area, possibly
+        across a periodic border.
 
-        data_size = 3 if topo.procs_per_dim[0] != 2 and self.periodic else 6
+        Args:
+            start: the start of the neighbor's range
+            stop: the end (exclusive) of the neighbor's range
+            local_min: the minimum of the local area in the dimension of the range
+            local_extent: the extent of the local area in the dimension of the range
+            full_extent: the extent of the full bounds in the dimension of the range
+        Returns:
+            A tuple (start, stop)
+        """
+        if start == local_min and stop == local_min + local_extent:
+            return (start, stop)
+        if (stop - local_min) % full_extent == 0:
+            return (local_min - (stop - start), local_min)
+        local_max = local_min + local_extent
+        return (local_max, local_max + (stop - start))
 
+    def _init_sync_data(self, num_dims, topo, buffer_size):
+        """Creates the buffers used to send and receive the buffered areas, and the grid slices
+        from which they are sent, and into which they are received.
+        """
         num_procs = self.cart_comm.Get_size()
-        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
-        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int32)
-
-        offset = 3
-        num_sent_slices = int(data_size / offset)
-        offsets = [0] * num_procs
-        for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
-            s_idx = offsets[ngh_rank]
-            meta_data_send[ngh_rank, s_idx: s_idx + offset] = [buf_shape[0]] + [bounds[0], bounds[1]]
-            offsets[ngh_rank] += offset
-
-        self.cart_comm.Alltoall(meta_data_send, self.ngh_meta_data_recv)
-
-        # shape element in first and 3rd column is the size
-        # send_counts = meta_data_send[:, 0] + meta_data_send[:, 3]
-        send_counts = _compute_meta_data_counts(meta_data_send, 1, 3, num_sent_slices)
-        send_displs = np.concatenate(
-            (np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
-        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
-        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
-
-        # shape element in first col
-        # recv_counts = self.ngh_meta_data_recv[:, 0] + self.ngh_meta_data_recv[:, 3]
-        recv_counts = _compute_meta_data_counts(self.ngh_meta_data_recv, 1, 3, num_sent_slices)
-        recv_displs = np.concatenate(
-            (np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
-        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
-        recv_buf_data = []
-
-        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
-            slice_data = []
-            if data[0] != 0:
-                row = data[1] + r_trans
-                # origin + extent
-                stop_row = row + (data[2] - data[1])
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, data[0], data[0], (slice(row, stop_row),)))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
-                    if data[idx] != 0:
-                        row = data[idx + 1] + r_trans
-                        # origin + extent
-                        stop_row = row + (data[idx + 2] - data[idx + 1])
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                              self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, data[idx], data[idx], (slice(row, stop_row),)))
-                    else:
-                        break
-            if len(slice_data) > 0:
-                recv_buf_data.append(slice_data)
-
-        self.recv_data = (
-            (recv_buf, (recv_counts, recv_displs)), recv_buf_data)
-
-    def _init_sync_data_2d(self, topo, buffer_size):
-        ngh_buffers = []
-        c_trans = self.impl.pt_translation[0]
-        r_trans = self.impl.pt_translation[1]
-        # Compute what to send to which neighbor
-        for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
-            # convert bounds into grid slices, row major'ing and
-            # applying the pt translations.
-            row = bounds[2] + r_trans
-            col = bounds[0] + c_trans
-            # origin + extent
-            shape = (bounds[3] - bounds[2], bounds[1] - bounds[0])
-            stop_row = row + shape[0]
-            stop_col = col + shape[1]
-            # if self.rank == 1:
-            #    print('Sending:', ngh_rank, np.prod(shape), shape, bounds, (slice(row, stop_row), slice(col, stop_col)), flush=True)
-            ngh_buffers.append(
-                (ngh_rank, np.prod(shape), shape, bounds, (slice(row, stop_row), slice(col, stop_col))))
-
-        # sort by rank of receiving neighbor
-        ngh_buffers.sort(key=lambda data: data[0])
-        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
-        num_procs = self.cart_comm.Get_size()
+        mins = (self.local_bounds.xmin, self.local_bounds.ymin)
+        extents = (self.local_bounds.xextent, self.local_bounds.yextent)
+        full_extents = (self.full_bounds.xextent, self.full_bounds.yextent)
+        trans = self.impl.pt_translation
 
-        offset = 6
-        data_size = offset
-        if self.periodic:
-            if topo.procs_per_dim[0] == 2 and topo.procs_per_dim[1] == 2:
-                data_size = 24
-            elif topo.procs_per_dim[0] == 2 or topo.procs_per_dim[1] == 2:
-                if num_procs == 2:
-                    data_size = 36
-                else:
-                    data_size = 12
-
-        # send buffer for meta data (bounds etc.)
-        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
-        # recv buffer for meta
-        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int32)
-
-        offsets = [0] * num_procs
-        for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
-            s_idx = offsets[ngh_rank]
-            # send bounds in row major
-            meta_data_send[ngh_rank, s_idx: s_idx + offset] = [buf_shape[0], buf_shape[1]] + [bounds[2], bounds[3], bounds[0], bounds[1]]
-            offsets[ngh_rank] += offset
-
-        self.cart_comm.Alltoall(meta_data_send, self.ngh_meta_data_recv)
-
-        # * the shapes to get count for each rank
-        num_sent_slices = int(data_size / offset)
-        send_counts = _compute_meta_data_counts(meta_data_send, 2, offset, num_sent_slices)
-        # send_counts = np.apply_along_axis(lambda row: np.prod(row[:2]) + np.prod(row[6:8]), 1, meta_data_send)
-        send_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
-        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
-        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
-
-        recv_counts = _compute_meta_data_counts(self.ngh_meta_data_recv, 2, offset, num_sent_slices)
-        # np.apply_along_axis(lambda row: row[0] * row[1] + row[6] * row[7], 1, self.ngh_meta_data_recv)
-        recv_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
-        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
-        recv_buf_data = []
-
-        rts = [r_trans for _ in range(num_sent_slices)]
-        cts = [c_trans for _ in range(num_sent_slices)]
-        if topo.procs_per_dim[0] == 1:
-            cts = [0, 0, 0, 0, c_trans, c_trans]
-        elif topo.procs_per_dim[1] == 1:
-            rts = [0, r_trans, 0, r_trans, r_trans, r_trans]
-
-        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
-            # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
-            slice_data = []
-            if data[0] != 0:
-                row = data[2] + rts[0]
-                col = data[4] + cts[0]
-                # origin + extent
-                stop_row = row + (data[3] - data[2])
-                stop_col = col + (data[5] - data[4])
-
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent,
-                                                      self.procs_per_dim[1])
-                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2], (slice(row, stop_row), slice(col, stop_col))))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
-                    if data[idx] != 0:
-                        row = data[idx + 2] + rts[i]
-                        col = data[idx + 4] + cts[i]
-                        # origin + extent
-                        stop_row = row + (data[idx + 3] - data[idx + 2])
-                        stop_col = col + (data[idx + 5] - data[idx + 4])
-
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent,
-                                                              self.local_bounds.yextent, self.procs_per_dim[1])
-                        col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent,
-                                                              self.local_bounds.xextent, self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2],
-                                          (slice(row, stop_row), slice(col, stop_col))))
-                    else:
-                        break
+        def to_slices(ranges):
+            # grid slices in row major order
+            return tuple(slice(ranges[d][0] + trans[d], ranges[d][1] + trans[d]) for d in reversed(range(num_dims)))
 
-            if len(slice_data) > 0:
-                recv_buf_data.append(slice_data)
+        def to_size(ranges):
+            return int(np.prod([stop - start for start, stop in ranges]))
 
-        self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
-
-    def _init_sync_data_3d(self, topo, buffer_size):
-        ngh_buffers = []
-        # create send_counts, send_displs, and send_buf
-        # buf_ngh: (rank, (ranges)) e.g., (1, (8, 10, 40, 42, 0, 0))
-        c_trans = self.impl.pt_translation[0]
-        r_trans = self.impl.pt_translation[1]
-        z_trans = self.impl.pt_translation[2]
+        # what to send to which neighbor. The same neighbor may be sent more than one area.
+        send_ranges = [[] for _ in range(num_procs)]
         for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
-            # convert bounds into grid slices, row major'ing and
-            # applying the pt translations.
-            row = bounds[2] + r_trans
-            col = bounds[0] + c_trans
-            z = bounds[4] + z_trans
-            # origin + extent
-            shape = (bounds[3] - bounds[2], bounds[1] - bounds[0], bounds[5] - bounds[4])
-            stop_row = row + shape[0]
-            stop_col = col + shape[1]
-            stop_z = z + shape[2]
-            ngh_buffers.append(
-                (ngh_rank, np.prod(shape), shape, bounds, (slice(row, stop_row), slice(col, stop_col), slice(z, stop_z))))
-
-        ngh_buffers.sort(key=lambda data: data[0])
-        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
+            send_ranges[ngh_rank].append([(bounds[d * 2], bounds[d * 2 + 1]) for d in range(num_dims)])
+        recv_ranges = self.cart_comm.alltoall(send_ranges)
 
-        num_procs = self.cart_comm.Get_size()
-        meta_data_send = np.zeros((num_procs, 18), dtype=np.int32)
-        self.ngh_meta_data_recv = np.zeros((num_procs, 18), dtype=np.int32)
-
-        for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
-            s_idx = 0 if meta_data_send[ngh_rank, 0] == 0 else 9
-            # send bounds in row major
-            meta_data_send[ngh_rank, s_idx: s_idx + 9] = [buf_shape[0], buf_shape[1], buf_shape[2]] + \
-                bounds[4], bounds[5], [bounds[2], bounds[3], bounds[0], bounds[1]]
-
-        self.cart_comm.Alltoall(meta_data_send, self.ngh_meta_data_recv)
-
-        # x the shapes to get count for each rank
-        send_counts = np.apply_along_axis(
-            lambda row: np.prod(row[0:3] + np.prod(row[9:12])), 1, meta_data_send)
-        send_displs = np.concatenate(
-            (np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
-        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
-        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
-
-        recv_counts = np.apply_along_axis(
-            lambda row: np.prod(row[0:3] + np.prod(row[9:12])), 1, self.ngh_meta_data_recv)
-        recv_displs = np.concatenate(
-            (np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
-        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
-        recv_buf_data = []
-
-        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
-            # data: shape, pytorch_order bounds [ 2 30  0 30 80 82  0  0]
-            # TODO check order -- is this z,y,x?
-            slice_data = []
-            if data[0] != 0:
-                z = data[2] + z_trans
-                row = data[4] + r_trans
-                col = data[6] + c_trans
-
-                # origin + extent
-                stop_z = z + (data[3] - data[2])
-                stop_row = row + (data[5] - data[4])
-                stop_col = col + (data[7] - data[6])
-
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent)
-                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent)
-                z, stop_z = self._wrap_slice_vals(z, stop_z, self.full_bounds.zextent)
-                slice_data.append((ngh_rank, np.prod(data[:3]), data[:3], (slice(
-                    row, stop_row), slice(col, stop_col), slice(z, stop_z))))
-
-                if data[9] != 0:
-                    z = data[11] + z_trans
-                    row = data[13] + r_trans
-                    col = data[15] + c_trans
-
-                    # origin + extent
-                    stop_z = z + (data[12] - data[11])
-                    stop_row = row + (data[14] - data[13])
-                    stop_col = col + (data[16] - data[15])
-
-                    row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent)
-                    col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent)
-                    z, stop_z = self._wrap_slice_vals(z, stop_z, self.full_bounds.zextent)
-                    slice_data.append((ngh_rank, np.prod(data[9:12]), data[9:12], (slice(
-                        row, stop_row), slice(col, stop_col), slice(z, stop_z))))
-
-            if len(slice_data) > 0:
-                recv_buf_data.append(slice_data)
-
-        self.recv_data = (
-            (recv_buf, (recv_counts, recv_displs)), recv_buf_data)
+        send_slices = [to_slices(ranges) for ngh_ranges in send_ranges for ranges in ngh_ranges]
+        recv_slices = [to_slices([self._recv_range(*ranges[d], mins[d], extents[d], full_extents[d]) for d in range(num_dims)])
+                       for ngh_ranges in recv_ranges for ranges in ngh_ranges]
 
-    def _init_sync_data(self, num_dims, topo, buffer_size):
-        if num_dims == 1:
-            self._init_sync_data_1d(topo, buffer_size)
-        elif num_dims == 2:
-            self._init_sync_data_2d(topo, buffer_size)
-        else:
-            self._init_sync_data_3d(topo, buffer_size)
+        def create_msg(all_ranges):
+            counts = np.array([sum(to_size(ranges) for ranges in ngh_ranges) for ngh_ranges in all_ranges], dtype=np.int32)
+            displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(counts, dtype=np.int32)[:-1]))
+            buf = np.empty(np.sum(counts), dtype=self.grid.numpy().dtype)
+            return (buf, (counts, displs))
+
+        self.send_data = (create_msg(send_ranges), send_slices)
+        self.recv_data = (create_msg(recv_ranges), recv_slices)
 
     def _synch_ghosts(self):
         """Synchronizes the ghosted buffer part of this value layer.
         """
-        # self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
-        # self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
-        # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
-        # recv_buf_data: (ngh_rank, shape, slice_tuple)
-
-        # fill send buffer from grid view
-        send_msg, ngh_buffers = self.send_data
-        send_displs = send_msg[1][1]
-        send_buf = send_msg[0]
-        for ngh_rank, size, _, _, tslice in ngh_buffers:
-            disp = send_displs[ngh_rank]
-            send_buf[disp: disp + size] = self.grid[tslice].numpy().reshape(size)
-
-        self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
-
-        # update grid view from recv_buffer
-        recv_msg, recv_buf_data = self.recv_data
-        recv_displs = recv_msg[1][1]
-        recv_buf = recv_msg[0]
-        for items in recv_buf_data:
-            for ngh_rank, size, shape, tslice in items:
-                try:
-                    disp = recv_displs[ngh_rank]
-                    self.grid[tslice] = torch.as_tensor(
-                        recv_buf[disp: disp + size].reshape(shape))
-
-                except Exception:
-                    print(self.rank, ngh_rank, size, shape, tslice)
-                    raise
+        if self.cart_comm.Get_size() > 1:
+            # self.send_data = ((send_buf, (send_counts, send_displs)), send_slices)
+            # self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_slices)
+            # the slices are in the order of the data in the buffers
+
+            # fill send buffer from grid view
+            send_msg, send_slices = self.send_data
+            send_buf = send_msg[0]
+            disp = 0
+            for tslice in send_slices:
+                vals = self.grid[tslice].numpy().reshape(-1)
+                send_buf[disp: disp + vals.size] = vals
+                disp += vals.size
+
+            self.cart_comm.Alltoallv(send_msg, self.recv_data[0])
+
+            # update grid view from recv_buffer
+            recv_msg, recv_slices = self.recv_data
+            recv_buf = recv_msg[0]
+            disp = 0
+            for tslice in recv_slices:
+                area = self.grid[tslice]
+                self.grid[tslice] = torch.as_tensor(recv_buf[disp: disp + area.numel()]).reshape(area.shape)
+                disp += area.numel()
         self._buffer_self()
 
 
@@ -1086,7 +856,7 @@ class ReadWriteValueLayer:
             the neighboring locations as a np.array: (values, ngh_locations). The first value in
             the values tensor is the value of the first location in the ngh_locations array, and so forth.
         """
-        return self.read.get_nghs(pt)
+        return self.read_layer.get_nghs(pt)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
@@ -1097,7 +867,7 @@ class ReadWriteValueLayer:
         """
         pass
 
-    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+    def _synch_ghosts(self, agent_manager: AgentManager = None, create_agent: Callable = None):
         """Synchronizes the ghosted buffer parts of the read and write value layers.
 
         Args:
-- 
2.43.0


From 9438ca9df5982b236e1caed489c0bdf48eef9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 02/32] fix: cartesian topology coordinates vector was reserved
 but not sized

---
 src/repast4py/distributed_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e49f9aa..17b4e2d 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -274,7 +274,7 @@ CartesianTopology::~CartesianTopology() {
 }
 
 void CartesianTopology::getCoords(std::vector<int>& coords) {
-    coords.reserve(num_dims_);
+    coords.resize(num_dims_);
     MPI_Cart_coords(comm_, getRank(), num_dims_, &coords[0]);
 }
 
-- 
2.43.0


From 97c21c53ff9372bcd5ff34a6129b62c5a4850678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 03/32] fix: buffers of periodic spaces when the same rank is a
 neighbor in both directions

With 2 ranks in a periodic dimension only one of the two borders was buffered.
---
 src/repast4py/distributed_space.cpp | 151 +++-------------------------
 src/repast4py/distributed_space.h   |   4 +
 2 files changed, 19 insertions(+), 136 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index 17b4e2d..fc3cf7a 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -40,28 +40,26 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 
     // 1: ngh to right of me.
     // -1: ngh to left of me.
-    // > 1: ngh is wrapped to left
-    // < -1: ngh is wrapped to right
-    if (offsets[0] == -1 || offsets[0] > 1) {
+    if (offsets[0] == -1) {
         xmin = local_bounds.xmin_;
         xmax = xmin + buffer_size;
-    } else if (offsets[0] == 1 || offsets[0] < -1) {
+    } else if (offsets[0] == 1) {
         xmin = local_bounds.xmax_ - buffer_size;
         xmax = xmin + buffer_size;
     }
 
-    if (offsets[1] == -1 || offsets[1] > 1) {
+    if (offsets[1] == -1) {
         ymin = local_bounds.ymin_;
         ymax = ymin + buffer_size;
-    } else if (offsets[1] == 1 || offsets[1] < -1) {
+    } else if (offsets[1] == 1) {
         ymin = local_bounds.ymax_ - buffer_size;
         ymax = ymin + buffer_size;
     }
 
-    if (offsets[2] == -1 || offsets[2] > 1) {
+    if (offsets[2] == -1) {
         zmin = local_bounds.zmin_;
         zmax = zmin + buffer_size;
-    } else if (offsets[2] == 1 || offsets[2] < -1) {
+    } else if (offsets[2] == 1) {
         zmin = local_bounds.zmax_ - buffer_size;
         zmax = zmin + buffer_size;
     }
@@ -79,130 +77,9 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& cart_coords, 
     BoundingBox& local_bounds, int num_dims, const int* procs_per_dim, unsigned int buffer_size)
 {
-    int offsets[3] = {0, 0, 0};
-
-    std::set<int> p_ranks;
-    if (num_dims == 1) {
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            // if in p_ranks:
-            //    coord_x > card_coords[0] -- to the right of me, so offsets to -1 as if to the left of me.
-            //    coord_x < card_coords[0] -- to the left of me , so offsets to 1 as if to right of me
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (offsets[0] < 0) offsets[0] = 1;
-                else offsets[0] = -1;
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
-    } else if (num_dims == 2) {
-        // bool is_0 = cart_coords[0] == 0 && cart_coords[1] == 0;
-        
-        // first element is number of times ngh appears, 2 and 3 and cart coord
-        // differences
-        std::map<int, std::vector<int>> coord_offset_counts;
-        // if (is_0) std::cout << "num nghs: " << nghs.size() << std::endl;
-        for (auto& ngh : nghs) {
-            if (coord_offset_counts.find(ngh.rank) == coord_offset_counts.end()) {
-                int ox = ngh.cart_coord_x - cart_coords[0];
-                int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-                coord_offset_counts.emplace(ngh.rank, std::vector<int>{1, ox, oy});
-            } else {
-                coord_offset_counts[ngh.rank][0] += 1;
-                // int ox = ngh.cart_coord_x - cart_coords[0];
-                // int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-            }
-        }
-
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-
-        std::map<int, std::vector<int>> fixed_offsets;
-        for (auto kv : coord_offset_counts) {
-            auto& val = kv.second;
-            if (val[0] == 1) {
-                fixed_offsets.emplace(kv.first, std::vector<int>{val[1], val[2]});
-            } else if (val[0] == 2) {
-                // which dimension is duplicated
-                if (val[1] != 0 && x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{1, val[2], -1 , val[2]});
-                } 
-                
-                if (val[2] != 0 && y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{val[1], 1, val[1], -1});
-                }
-            } else if (val[0] == 4) {
-                // both dimensions duplicated
-                fixed_offsets.emplace(kv.first, std::vector<int>{1, 1, 1, -1, -1, 1, -1, -1});
-            } else if (val[0] == 6) {
-                // this will occur with 2 procs and periodic -- meet at left / right or top / bottom
-                // and 4 corners
-                if (x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, -1, 0, 1, 0});
-                } else if (y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, 0, -1, 0, 1});
-                }
-            }
-        }
-
-        std::map<int, int> ngh_offsets_idx;
-        for (auto& ngh : nghs) {
-            int idx = ngh_offsets_idx[ngh.rank];
-            ngh_offsets_idx[ngh.rank] += 2;
-            auto& ngh_offsets = fixed_offsets[ngh.rank];
-            offsets[0] = ngh_offsets[idx];
-            offsets[1] = ngh_offsets[idx + 1];
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            // if (is_0) std::cout << "fixed ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        }
-
-        // for (auto& ngh : nghs) {
-        //     offsets[0] = ngh.cart_coord_x - cart_coords[0];
-        //     offsets[1] = ngh.cart_coord_y - cart_coords[1];
-        //     if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-        //         if (x2) {
-        //             if (offsets[0] < 0) offsets[0] = 1;
-        //             else if (offsets[0] > 0) offsets[0] = -1;
-        //         }
-        //         if (y2) {
-        //             if (offsets[1] < 0) offsets[1] = 1;
-        //             else if (offsets[1] > 0) offsets[1] = -1;
-        //         }
-        //         if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     }
-        //     compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-        //     p_ranks.emplace(ngh.rank);
-        // }
-    } else if (num_dims == 3) {
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-        bool z2 = procs_per_dim[2] == 2;
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            offsets[1] = ngh.cart_coord_y - cart_coords[1];
-            offsets[2] = ngh.cart_coord_z - cart_coords[2];
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (x2) {
-                    if (offsets[0] < 0) offsets[0] = 1;
-                    else if (offsets[0] > 0) offsets[0] = -1;
-
-                }
-                if (y2) {
-                    if (offsets[1] < 0) offsets[1] = 1;
-                    else if (offsets[1] > 0) offsets[1] = -1;
-                }
-                if (z2) {
-                    if (offsets[2] < 0) offsets[2] = 1;
-                    else if (offsets[2] > 0) offsets[2] = -1;
-                }
-
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
+    for (auto& ngh : nghs) {
+        int offsets[3] = {ngh.offset_x, ngh.offset_y, ngh.offset_z};
+        compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
     }
 }
 
@@ -351,8 +228,10 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
             MPI_Cart_coords(comm_, n_rank, num_dims_, working);
             // ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], -1, -1, nullptr,
             //    {0, 0, 0, 0}});
-            neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
-                {0, 0, 0, 0}});
+            if (n_rank != rank) {
+                neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
+                    {0, 0, 0, 0}, xd, 0, 0});
+            }
         }
 
     } else if (num_dims_ == 2) {
@@ -387,7 +266,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, xd, yd, 0});
                     }
                 }
             }
@@ -435,7 +314,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, xd, yd, zd});
                     }
                 }
             }
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 88b6bca..0bf9fef 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -27,6 +27,10 @@ struct CTNeighbor {
     // buffered agents - tuple: (rank, (xmin, xmax, ymin, ymax, zmin, zmax))
     PyObject* buffer_info;
     BoundingBox local_bounds;
+    // direction (-1, 0, or 1) of this neighbor in each dimension. When
+    // borders are periodic and a dimension has only 2 procs then the same
+    // rank is a neighbor in both directions.
+    int offset_x, offset_y, offset_z;
 };
 
 struct GetBufferInfo {
-- 
2.43.0


From b2234ebe0f7d8c28d309dbfd11e045c1371348d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 04/32] fix: periodic borders never move an agent to the
 excluded maximum, nor perturb locations in bounds

The unused dimensions of a periodic space's locations are also no longer uninitialized.
---
 src/repast4py/borders.h | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index e822ae3..189ca5a 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -90,13 +90,29 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
 using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 
+template <typename coord_type>
+coord_type periodic_coord(coord_type v, coord_type min, coord_type max, coord_type extent) {
+    // a location within the bounds is not changed, not even by floating point rounding
+    if (v >= min && v < max) return v;
+
+    coord_type nc = fmod(v - min, extent);
+    if (nc < 0) {
+        // a tiny negative offset can be rounded up to the max, which is not part of the space
+        coord_type wrapped = max + nc;
+        return wrapped < max ? wrapped : min;
+    }
+    coord_type wrapped = min + nc;
+    return wrapped < max ? wrapped : min;
+}
+
 template <typename PointType>
 void transformX(const PointType* pt, Point<PointType>& transformed_pt, const BoundingBox& bounds) {
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    transformed_pt.x = periodic_coord<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = bounds.ymin_;
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -104,11 +120,9 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    transformed_pt.x = periodic_coord<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = periodic_coord<coord_type>(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -116,14 +130,9 @@ void transformXYZ(const PointType* pt, Point<PointType>& transformed_pt, const B
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
-
-    nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_);
-    transformed_pt.z = nc < 0 ? bounds.zmax_ + nc : bounds.zmin_ + nc;
+    transformed_pt.x = periodic_coord<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = periodic_coord<coord_type>(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
+    transformed_pt.z = periodic_coord<coord_type>(data[2], bounds.zmin_, bounds.zmax_, bounds.z_extent_);
 }
 
 template<typename PointType>
-- 
2.43.0


From 18d694dceacb9fb8ece4b76ed106ad69e12641d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 05/32] fix: agents sharing a continuous location stay findable
 when one of them moves or a node splits

---
 src/repast4py/SpatialTree.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 2c5875b..e5d332d 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -117,8 +117,11 @@ void MOItems<PointType>::add(PointType* pt) {
     auto iter = point_counts.find(pt);
     if (iter == point_counts.end()) {
         ++sum;
-        Py_INCREF(pt);
-        point_counts.emplace(pt, 1);
+        // the key must be a copy: pt belongs to an agent, and is updated in place when that
+        // agent moves, even if other agents remain at this location.
+        Point<PointType> coords;
+        extract_coords(pt, coords);
+        point_counts.emplace(create_point(Py_TYPE(pt), coords), 1);
     } else {
         ++(iter->second);
     }
@@ -131,8 +134,9 @@ bool MOItems<PointType>::remove(PointType* pt) {
         --(kv->second);
         // size_t val = --point_counts[item->pt];
         if (kv->second == 0) {
-            Py_DECREF(kv->first);
+            PointType* key = kv->first;
             point_counts.erase(kv);
+            Py_DECREF(key);
             --sum;
         }
         return true;
@@ -143,14 +147,20 @@ bool MOItems<PointType>::remove(PointType* pt) {
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box2D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
     for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+        // once for each of the agents at that point
+        for (size_t i = 0; i < kv.second; ++i) {
+            node->addItem(kv.first, threshold);
+        }
     }
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box3D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
     for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+        // once for each of the agents at that point
+        for (size_t i = 0; i < kv.second; ++i) {
+            node->addItem(kv.first, threshold);
+        }
     }
 }
 
-- 
2.43.0


From 01db3e6cb60fc6318ab8033e16f24d55a29ba2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 06/32] fix: an agent in several buffer areas of a neighbor is
 ghosted once

and a buffered ghost that became local is not removed as a ghost.
---
 src/repast4py/space.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/space.py b/src/repast4py/space.py
index 6e49581..52b0e16 100644
--- a/src/repast4py/space.py
+++ b/src/repast4py/space.py
@@ -168,10 +168,16 @@ class SharedGrid(_SharedGrid, SharedProjection):
             create_agent: a callable that takes the agent tuple and returns an Agent
         """
         pt = DiscretePoint(0, 0, 0)
+        # the same agent is received more than once when it is in more than one of
+        # the areas that a neighbor sends (e.g., an edge and a corner).
+        received = set()
         for sending_rank, data_list in enumerate(recv_data):
             for data in data_list:
                 agent_data = data[0]
                 pt_data = data[1]
+                if agent_data[0] in received:
+                    continue
+                received.add(agent_data[0])
                 # get will increment ref count if ghost exists
                 agent = agent_manager.get_ghost(agent_data[0])
                 if agent is None:
@@ -193,8 +199,10 @@ class SharedGrid(_SharedGrid, SharedProjection):
         """
         if self.do_synch:
             for agent in self.buffered_agents:
-                self.remove(agent)
-                agent_manager.remove_ghost(agent)
+                # no longer a ghost if it has become local since it was buffered
+                if agent_manager.get_ghost(agent.uid, 0) is agent:
+                    self.remove(agent)
+                    agent_manager.remove_ghost(agent)
             self.buffered_agents.clear()
 
     def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
@@ -356,8 +364,10 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
         """
         if self.do_synch:
             for agent in self.buffered_agents:
-                self.remove(agent)
-                agent_manager.remove_ghost(agent)
+                # no longer a ghost if it has become local since it was buffered
+                if agent_manager.get_ghost(agent.uid, 0) is agent:
+                    self.remove(agent)
+                    agent_manager.remove_ghost(agent)
 
             self.buffered_agents.clear()
 
@@ -399,8 +409,14 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
             create_agent: a callable that takes the agent tuple and returns an Agent
         """
         pt = ContinuousPoint(0, 0, 0)
+        # the same agent is received more than once when it is in more than one of
+        # the areas that a neighbor sends (e.g., an edge and a corner).
+        received = set()
         for sending_rank, data_list in enumerate(recv_data):
             for agent_data, pt_data in data_list:
+                if agent_data[0] in received:
+                    continue
+                received.add(agent_data[0])
                 agent = agent_manager.get_ghost(agent_data[0])
                 if agent is None:
                     agent = create_agent(agent_data)
-- 
2.43.0


From 3aba9f29dae4abe40b63836a176a1866bd72901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 07/32] fix: an agent that leaves a rank leaves all of that
 rank's bounded projections

---
 src/repast4py/context.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 2daaa50..c84ee1a 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -164,6 +164,11 @@ class SharedContext:
 
             proj._clear_oob()
 
+        # the agent has left this rank, and so is no longer in any of its bounded projections
+        for agent, _ in oob_agents:
+            for proj in self.bounded_projs.values():
+                proj.remove(agent)
+
         return send_data
 
     def _process_recv_oob_data(self, recv_data: List, ghosts_to_remove: List, create_agent: Callable):
@@ -190,8 +195,12 @@ class SharedContext:
                     # print("New agent", agent_data)
                     agent = create_agent(agent_data_list[0])
                     # received what used to be ghost here
-                    if agent.uid in self._agent_manager._ghost_agents:
+                    ghost = self._agent_manager.get_ghost(agent.uid, 0)
+                    if ghost is not None:
                         ghosts_to_remove.append(agent.uid)
+                        # the ghost may still be buffered if the ghosts are not being synchronized
+                        for proj in self.bounded_projs.values():
+                            proj.remove(ghost)
                     # print("Adding", agent.id)
                     self.add(agent)
                     if len(agent_data_list) == 2:
-- 
2.43.0


From 521e90d99c35cf1f26a01a97ccdcc3c63a8937ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 08/32] fix: buffered ghosts do not move their agent back when
 synchronizing without ghosts

---
 src/repast4py/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index c84ee1a..d2d2654 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -140,14 +140,19 @@ class SharedContext:
             to send the data in the second list to.
         """
         send_data = [[] for i in range(self.comm.size)]
+        moving_ids = set()
         # gather agents to send from the out of bounds (oob) sequence
         for pid, proj in self.bounded_projs.items():
             for agent_id, ngh_rank, pt in proj._get_oob():
                 agent = self._agent_manager.remove_local(agent_id)
                 if agent is None:
+                    if agent_id not in moving_ids:
+                        # a ghost in this projection's buffer, it moves when its owner moves it
+                        continue
                     # already removed
                     data = [(agent_id,)]
                 else:
+                    moving_ids.add(agent_id)
                     oob_agents.append((agent, ngh_rank))
                     del self._agents_by_type[agent_id[1]][agent_id]
                     data = [agent.save()]
-- 
2.43.0


From 88cbee5ba42debd64cc17bc7a93be899231d8264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 09/32] fix: requested ghosts are kept up to date by, and
 forgotten with, their owner

A buffered ghost that is then requested was neither updated by its owner nor
removed with it, and ghosts kept the local rank of a former owner.
---
 src/repast4py/context.py | 23 ++++++++++++++++-------
 src/repast4py/core.py    |  2 ++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index d2d2654..4a2f0e4 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -247,9 +247,10 @@ class SharedContext:
             for g_rank in gh_agent.ghost_ranks:
                 send_data[g_rank].append(gh_agent.agent.save())
         recv_data = self.comm.alltoall(send_data)
-        for updates in recv_data:
+        for rank, updates in enumerate(recv_data):
             for update in updates:
                 ghost = self._agent_manager._ghost_agents[update[0]]
+                ghost.agent.local_rank = rank
                 ghost.agent.update(*update[1:])
 
     def _pre_synch_ghosts(self):
@@ -433,15 +434,16 @@ class SharedContext:
             # 1 is the rank to request from
             # 0 is the id of the agent we are requesting
             agent = self._agent_manager.get_ghost(request[0], 0)
-            if agent is None:
+            if agent is None or not self._agent_manager.is_requested(request[0]):
+                # an existing ghost that has not been requested (e.g., a ghost in a buffer)
+                # must be requested so that the rank requested from keeps it up to date.
                 lst = requests[request[1]]
                 if lst is None:
                     requests[request[1]] = [request[0]]
-                else:
-                    requests[request[1]].append(request[0])
+                elif request[0] not in lst:
+                    lst.append(request[0])
             else:
                 existing_ghosts.append(agent)
-                self._agent_manager.add_req_ghost(agent.uid)
                 for proj in self.projections.values():
                     if agent not in proj:
                         proj.add(agent)
@@ -477,9 +479,16 @@ class SharedContext:
         recv_agents = self.comm.alltoall(sent_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
-                agent = create_agent(agent_data)
+                agent = self._agent_manager.get_ghost(agent_data[0], 0)
+                if agent is None:
+                    agent = create_agent(agent_data)
+                    self._add_ghost(rank, agent)
+                else:
+                    agent.update(*agent_data[1:])
+                    for proj in self.projections.values():
+                        if agent not in proj:
+                            proj.add(agent)
                 ghosts.append(agent)
-                self._add_ghost(rank, agent)
                 self._agent_manager.add_req_ghost(agent.uid)
 
         return ghosts
diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 5c15641..0a87079 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -259,6 +259,8 @@ class AgentManager:
             agent_id: the unique id tuple of the ghost.
         """
         del self._ghost_agents[agent_id]
+        # no longer a ghost, so no longer a requested ghost
+        self._req_ghosts.discard(agent_id)
 
     def add_ghost(self, ghosted_rank: int, agent: Agent, incr: int = 1):
         """Adds the specified agent to the ghost collection from
-- 
2.43.0


From 1fdd62ee31ff2468d5fd5dc3acd95b9123826d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 10/32] fix: a scheduled stop counts when determining the next
 global tick

A rank whose next event was a stop executed that stop before the other ranks
reached its tick, and left them waiting.
---
 src/repast4py/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index cb8fc68..8c5b238 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -594,6 +594,7 @@ class SharedScheduleRunner:
             The ScheduledEvent instance that executes the stop event.
         """
         sch_evt = self.schedule.schedule_event(at, self.stop, metadata={'__type': EvtType.STOP})
+        self.next_tick = self.schedule.next_tick()
         return sch_evt
 
     def stop(self):
-- 
2.43.0


From 63df65108fe7e6b421b2a2e84e0c15493c8efa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 11/32] fix: priority order survives events scheduled during
 the executing tick

The not yet executed random events were sorted by their undefined priority
together with the prioritized events, which then could execute out of order.
---
 src/repast4py/schedule.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 8c5b238..7ddaafb 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -216,6 +216,13 @@ class ScheduleGroup:
         self.first.sort(key=lambda evt: evt.order_idx)
         self.last.sort(key=lambda evt: evt.order_idx)
 
+        # when events are added during execution, the random events that have not been executed
+        # yet have already been inserted among the prioritized, and have no priority to sort by
+        not_executed = [evt for evt in self.prioritized if evt.priority_type == PriorityType.RANDOM]
+        if not_executed:
+            self.random = not_executed + self.random
+            self.prioritized = [evt for evt in self.prioritized if evt.priority_type != PriorityType.RANDOM]
+
         if self.prioritized:
             rng = random.default_rng
             # add random actions randomly to prioritized actions
-- 
2.43.0


From 9613729567e21edbdcdf0db1f0024b574a1e513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 12/32] fix: logging to a file in the current directory

os.makedirs('') raised when the log file's path named no directory.
---
 src/repast4py/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index cea93f0..95e34b2 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -287,7 +287,7 @@ class ReducingDataSet:
 
         if self._rank == 0:
             parent = os.path.dirname(fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
             self.ticks = []
 
@@ -363,7 +363,7 @@ class TabularLogger:
         if self._rank == 0:
             self._fpath = find_free_filename(fpath)
             parent = os.path.dirname(self._fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
 
             with open(self._fpath, 'w', newline='') as fout:
-- 
2.43.0


From de73f15b249e2f015214c6f9f5992b1b5b4167c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 13/32] fix: a failed write no longer pairs later logged values
 with earlier ticks

The values are discarded by the reduction, but the ticks were kept when
writing the file failed.
---
 src/repast4py/logging.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index 95e34b2..48f5d4c 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -327,8 +327,11 @@ class ReducingDataSet:
         """
         val_arrays = [x.reduce(self._comm) for x in self._data_loggers]
         if self._rank == 0:
-            nrows = len(self.ticks)
-            val_arrays = [self.ticks] + val_arrays
+            # the values have been reduced and discarded, so must the ticks,
+            # even if writing them fails.
+            ticks, self.ticks = self.ticks, []
+            nrows = len(ticks)
+            val_arrays = [ticks] + val_arrays
             with open(self.fpath, 'a', newline='') as f_out:
                 for i in range(nrows):
                     first = True
@@ -341,8 +344,6 @@ class ReducingDataSet:
                             f_out.write(str(vals[i]))
                     f_out.write('\n')
 
-            self.ticks.clear()
-
 
 class TabularLogger:
     """Logs arbitrary values by row in a delimited tabular format. All the rows
-- 
2.43.0


From 46ea5bed06f21de307d923b9a20c3c7be1f61412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 14/32] fix: a failed write no longer repeats rank 0's rows on
 the next write

The other ranks' rows were discarded, those of rank 0 were written again.
---
 src/repast4py/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index 48f5d4c..64bb56d 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -397,14 +397,14 @@ class TabularLogger:
         operation and must be called by all ranks in the communicator.
         """
         all_items = self._comm.gather(self._rows, root=0)
+        # gathered once, so not to be gathered again even if writing fails on rank 0.
+        self._rows = []
         if self._rank == 0:
             with open(self._fpath, 'a', newline='') as fout:
                 writer = csv.writer(fout, delimiter=self._delimiter)
                 for items in all_items:
                     writer.writerows(items)
 
-        self._rows.clear()
-
     def close(self):
         """Closes this TabularLogger, writing any rows of
         data to the file.
-- 
2.43.0


From bdb59360f222368b93f1e0a53abe664189acd626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 15/32] fix: both ranks of a cross-rank edge keep track of it,
 so that it stays consistent when either end changes, removes or moves it

Changing or removing an edge from the rank that received it, removing it before it is synchronized,
removing one of its agents, moving both its agents, or moving one of them while it is ghosted for another
reason (buffer, request) failed with an exception, lost the edge, or left ghosts behind or out of date.
---
 src/repast4py/context.py |  37 ++-
 src/repast4py/network.py | 535 +++++++++++++++++++++++++--------------
 2 files changed, 370 insertions(+), 202 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 4a2f0e4..f326aa4 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -232,7 +232,9 @@ class SharedContext:
             for removed_id in updates:
                 ghost = self._agent_manager.get_ghost(removed_id)
                 for proj in self.projections.values():
-                    proj.remove(ghost)
+                    # ghosts may be in some of the projections only
+                    if ghost in proj:
+                        proj.remove(ghost)
                 self._agent_manager.delete_ghost(removed_id)
 
         self.removed_ghosteds.clear()
@@ -260,6 +262,21 @@ class SharedContext:
         for proj in self.projections.values():
             proj._pre_synch_ghosts(self._agent_manager)
 
+    def _synch_before_moves(self, restore_agent: Callable):
+        """Synchronizes removed agents and the changes in the non-bounded projections, so that, for
+        example, an edge is known on the ranks of both its agents when one of them moves.
+
+        Args:
+            restore_agent: a Callable that when given serialized agent data
+            returns an agent.
+        """
+        if len(self.non_bounded_projs) > 0:
+            self._update_removed_ghosts()
+            for proj in self.non_bounded_projs:
+                proj._pre_synch_ghosts(self._agent_manager)
+            for proj in self.non_bounded_projs:
+                proj._synch_ghosts(self._agent_manager, restore_agent)
+
     def _synch_ghosts(self, restore_agent: Callable):
         """Synchronizes ghosts on all "ghostable" projections
         and value layers associated with this SharedContext.
@@ -288,6 +305,8 @@ class SharedContext:
                 with this SharedContext are also synchronized. Defaults to True.
         """
 
+        self._synch_before_moves(restore_agent)
+
         if sync_ghosts:
             self._pre_synch_ghosts()
 
@@ -523,6 +542,8 @@ class SharedContext:
             create_agent: a Callable that can take the result of an agent :samp: `save()` and
                 return an agent.
         """
+        self._synch_before_moves(create_agent)
+
         sent_agents = [[] for i in range(self.comm.size)]
         moved_agents = []
         for uid, rank in agents_to_move:
@@ -554,19 +575,15 @@ class SharedContext:
                     ghosted_data.pop(self.rank, None)
                     self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)
 
-        self._agents_moved(moved_agents, self.projections.values())
+        any_moved = self._agents_moved(moved_agents, self.projections.values())
 
         # received agents that used to be ghosts so
         # remove them as ghosts as they are now local
         for gh_uid in ghosts_to_remove:
             self._agent_manager.delete_ghost(gh_uid)
 
-        self._pre_synch_ghosts()
-        send_data = self._gather_oob_data([])
-        recv_data = self.comm.alltoall(send_data)
-        ghosts_to_remove = []
-        self._process_recv_oob_data(recv_data, ghosts_to_remove, create_agent)
-        self._synch_ghosts(create_agent)
+        if any_moved:
+            for proj in self.projections.values():
+                proj._post_agents_moved_rank(self._agent_manager, create_agent)
 
-        for proj in self.projections.values():
-            proj._post_agents_moved_rank(self._agent_manager, create_agent)
+        self.synchronize(create_agent)
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index ec68808..5d270e2 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -72,19 +72,27 @@ class SharedNetwork(SharedProjection, ABC):
         self.new_edges = {}
         # key is edge tuple, val is idx of ghost agent in tuple
         self.edges_to_remove = {}
-        # list of edges that need to be recreated when a
-        # agent moves off of this rank. Edge is (u.uid, v.uid)
+        # the keys of ghosted edges that are gone because an agent
+        # has been removed from this network
+        self._dropped_edges = []
+        # ghost agents whose new edge was removed before it was synchronized
+        self._unlinked_ghosts = []
+        # the ghosted edges counted in _edge_counts for the rank of their ghost agent,
+        # key is edge tuple, val is that rank
+        self._linked_edges = {}
+        # the number of ghosted edges by (uid of local agent, rank of the ghost agent)
+        # and by (uid of ghost agent, None). A local agent is tagged as ghosted to a
+        # rank, and a ghost referenced, while the count is not 0. Both ranks of
+        # an edge count it, so they agree on which agents are ghosts for this network.
+        self._edge_counts = {}
+        # key is uid, val is (agent, destination rank) of the agents moving off this rank
+        self._moving_agents = {}
+        # list of the edges of agents moving off of this rank: (u.uid, v.uid, edge attributes)
         self._agent_moved_edges = []
-        # list of agent ids that should not be ghosted to this
-        # rank after an agent move. The identification of
-        # these agents and communicating to the ghosting rank
-        # occur in different stages so we track this info as field
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
-        # list of ghosts agents that need to have their
-        # ref count incremented. This can occur when an agent
-        # in a buffer zone is added via an edge, but has not
-        # yet has the ghost ref count incremented
-        self.ghosts_to_ref = []
+        # edges received by this rank, both of whose agents have moved: (u.uid, v.uid, edge attributes)
+        self._recv_moved_edges = []
+        # agents moved to this rank needed as a ghost elsewhere: (uid, rank)
+        self._recv_ghost_requests = []
 
     def __iter__(self) -> Iterable[Agent]:
         """Gets an Iterable over all the nodes (agents) in
@@ -216,8 +224,39 @@ class SharedNetwork(SharedProjection, ABC):
         Raises:
             NetworkXError: if the agent is not a node in this SharedNetwork.
         """
+        if self.graph.has_node(agent):
+            for u, v in list(self._edges(agent)): # type: ignore
+                self._drop_edge(u, v)
+
         self.graph.remove_node(agent)
 
+    def _drop_edge(self, u_agent: Agent, v_agent: Agent):
+        """Removes the edge between the specified agents, one of which is leaving
+        this network, from the graph and from any pending synchronization.
+
+        Args:
+            u_agent: the u node of the edge
+            v_agent: the v node of the edge
+        """
+        # edges from an agent to itself may be iterated more than once
+        if self.graph.has_edge(u_agent, v_agent):
+            edge_key = self._get_edge_key((u_agent, v_agent))
+            self.graph.remove_edge(u_agent, v_agent)
+            self._remove_edge_key(u_agent, v_agent)
+            self.edges_to_update.discard(edge_key)
+            self._remove_new_edge(edge_key)
+            if edge_key in self.ghosted_edges:
+                self._dropped_edges.append(edge_key)
+
+    def _remove_new_edge(self, edge_key: Tuple):
+        """Removes the specified edge from the edges to be ghosted to the rank of its ghost agent.
+
+        Args:
+            edge_key: the canonical key of the edge
+        """
+        if edge_key in self.new_edges:
+            self._unlinked_ghosts.append(self.new_edges.pop(edge_key).ghost_agent)
+
     def update_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Updates the edge between u_agent and v_agent with the specified
         attributes.
@@ -254,28 +293,31 @@ class SharedNetwork(SharedProjection, ABC):
         if u_agent.local_rank != self.rank and v_agent.local_rank == self.rank or \
            u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
             edge_key = self._get_edge_key((u_agent, v_agent))
-            # edge key order might be different than remove edge args
-            # so need to check in edge key which is the ghost
-            self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
-            del self.ghosted_edges[edge_key]
+            # only the edges that have been synchronized are known to the other rank
+            if edge_key in self.ghosted_edges:
+                # edge key order might be different than remove edge args
+                # so need to check in edge key which is the ghost
+                self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
             # if removed before update sync or removed before new edge sync
             # then remove it here
             self.edges_to_update.discard(edge_key)
-            self.new_edges.pop(edge_key, None)
+            self._remove_new_edge(edge_key)
 
         self._remove_edge_key(u_agent, v_agent)
 
     def clear_edges(self):
         """Removes all the edges.
         """
+        for u_agent, v_agent in list(self.graph.edges):
+            self._remove_edge_key(u_agent, v_agent)
         self.graph.clear_edges()
-        for edge, ghosted_edge in self.ghosted_edges.items():
-            edge_key = self._get_edge_key(edge)
+
+        for edge_key in self.ghosted_edges:
             self.edges_to_remove[edge_key] = 1 if edge_key[0].local_rank == self.rank else 0
-            self.edges_to_update.discard(edge_key)
 
-        self.new_edges.clear()
-        self.ghosted_edges.clear()
+        self.edges_to_update.clear()
+        for edge_key in list(self.new_edges):
+            self._remove_new_edge(edge_key)
 
     def contains_edge(self, u_agent: Agent, v_agent: Agent) -> bool:
         """Gets whether or not an edge exists between the u_agent and v_agent.
@@ -295,39 +337,123 @@ class SharedNetwork(SharedProjection, ABC):
         Args:
             agent_manager: AgentManager used to manage agent synchronization
         """
+        for edge_key in self._dropped_edges:
+            self._untrack_edge(edge_key, agent_manager)
+        self._dropped_edges.clear()
+
         sync_edges = [[] for i in range(self.comm.size)]
         for edge, ghost_idx in self.edges_to_remove.items():
             ghost = edge[ghost_idx]
             sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
-            agent_manager.untag_as_ghosted(ghost.local_rank, edge[not (ghost_idx)].uid)
+            self._untrack_edge(edge, agent_manager)
 
         self.edges_to_remove.clear()
         to_remove = self.comm.alltoall(sync_edges)
         for edges in to_remove:
             for u_id, v_id in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(v_agent):
-                        agent_manager.remove_ghost(v_agent)
-                        self.graph.remove_node(v_agent)
-                else:
-                    v_agent = agent_manager._local_agents[v_id]
-                    # u_agent is GhostAgent so get agent
-                    u_agent = u_agent.agent
+                u_agent = self._get_agent(u_id, agent_manager)
+                v_agent = self._get_agent(v_id, agent_manager)
+                # no edge if the agent on this rank has been removed as well
+                if u_agent is not None and v_agent is not None and self.graph.has_edge(u_agent, v_agent):
+                    edge_key = self._get_edge_key((u_agent, v_agent))
                     self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(u_agent):
-                        agent_manager.remove_ghost(u_agent)
-                        self.graph.remove_node(u_agent)
+                    self._remove_edge_key(u_agent, v_agent)
+                    self.edges_to_update.discard(edge_key)
+                    self.new_edges.pop(edge_key, None)
+                    self._untrack_edge(edge_key, agent_manager)
+
+        for ghost in self._unlinked_ghosts:
+            self._remove_ghost_node(ghost, agent_manager)
+        self._unlinked_ghosts.clear()
+
+    def _remove_ghost_node(self, ghost: Agent, agent_manager: AgentManager):
+        """Removes the specified ghost from the network if it is a node only because of its
+        former edges.
+
+        Args:
+            ghost: the ghost to remove
+            agent_manager: AgentManager used to manage agent synchronization
+        """
+        # edges not yet synchronized keep the node
+        if ghost.local_rank != self.rank and not agent_manager.is_requested(ghost.uid) \
+                and self.graph.has_node(ghost) and not self._has_edge(ghost):
+            self.graph.remove_node(ghost)
+
+    def _get_agent(self, uid: Tuple, agent_manager: AgentManager) -> Agent:
+        """Gets the local or ghost agent with the specified id, or None if this
+        rank has no such agent.
+        """
+        agent = agent_manager.get_local(uid)
+        return agent_manager.get_ghost(uid, 0) if agent is None else agent
+
+    def _track_edge(self, edge_key: Tuple, ghosted_edge: GhostedEdge, agent_manager: AgentManager):
+        """Starts tracking a cross-rank edge known to both of its ranks. The agent local to
+        this rank is tagged as ghosted by its first edge with an agent on the other rank, and
+        the ghost agent is referenced by its first edge.
+
+        Args:
+            edge_key: the canonical key of the edge
+            ghosted_edge: the edge to track
+            agent_manager: AgentManager used to manage agent synchronization
+        """
+        self._reference_ghost(edge_key, ghosted_edge, agent_manager)
+        if edge_key not in self._linked_edges:
+            uid, rank = ghosted_edge.local_agent.uid, ghosted_edge.ghost_agent.local_rank
+            self._linked_edges[edge_key] = rank
+            if self._count_edge((uid, rank), 1) == 1:
+                agent_manager.tag_as_ghosted(rank, uid)
+
+    def _reference_ghost(self, edge_key: Tuple, ghosted_edge: GhostedEdge, agent_manager: AgentManager):
+        """References the ghost agent of the specified edge, if this is its first edge.
+
+        Args:
+            edge_key: the canonical key of the edge
+            ghosted_edge: the edge
+            agent_manager: AgentManager used to manage agent synchronization
+        """
+        if edge_key not in self.ghosted_edges:
+            self.ghosted_edges[edge_key] = ghosted_edge
+            ghost = ghosted_edge.ghost_agent
+            if self._count_edge((ghost.uid, None), 1) == 1 and agent_manager.get_ghost(ghost.uid) is None:
+                agent_manager.add_ghost(ghost.local_rank, ghost)
+
+    def _unlink_edge(self, edge_key: Tuple, agent_manager: AgentManager):
+        """Stops counting the specified edge for the rank of its ghost agent.
+
+        Args:
+            edge_key: the canonical key of the edge
+            agent_manager: AgentManager used to manage agent synchronization
+        """
+        if edge_key in self._linked_edges:
+            rank = self._linked_edges.pop(edge_key)
+            uid = self.ghosted_edges[edge_key].local_agent.uid
+            if self._count_edge((uid, rank), -1) == 0 and agent_manager.is_ghosted_to(rank, uid):
+                agent_manager.untag_as_ghosted(rank, uid)
 
-                self._remove_edge_key(u_agent, v_agent)
+    def _untrack_edge(self, edge_key: Tuple, agent_manager: AgentManager):
+        """Stops tracking the specified cross-rank edge. Agents are no longer ghosts for
+        this network if this was their last edge.
+
+        Args:
+            edge_key: the canonical key of the edge
+            agent_manager: AgentManager used to manage agent synchronization
+        """
+        if edge_key in self.ghosted_edges:
+            self._unlink_edge(edge_key, agent_manager)
+            ghost = self.ghosted_edges.pop(edge_key).ghost_agent
+            if self._count_edge((ghost.uid, None), -1) == 0 and agent_manager.get_ghost(ghost.uid, 0) is ghost:
+                # Note that remove_ghost will check for inclusion in requested
+                agent_manager.remove_ghost(ghost)
+                self._remove_ghost_node(ghost, agent_manager)
+
+    def _count_edge(self, key: Tuple, incr: int) -> int:
+        """Increments a count of ghosted edges, returning the new count."""
+        count = self._edge_counts.get(key, 0) + incr
+        if count == 0:
+            del self._edge_counts[key]
+        else:
+            self._edge_counts[key] = count
+        return count
 
     def _sync_vertices(self, agent_manager: AgentManager, create_agent: Callable) -> List:
         """Synchronizes vertices across processes.
@@ -349,20 +475,19 @@ class SharedNetwork(SharedProjection, ABC):
         """
         sync_agents = [[] for i in range(self.comm.size)]
         sync_edges = [[] for i in range(self.comm.size)]
-        for nodes, ghosted_edge in self.new_edges.items():
+        new_edges, self.new_edges = self.new_edges, {}
+        for nodes, ghosted_edge in new_edges.items():
             local_agent = ghosted_edge.local_agent
             ghost_agent = ghosted_edge.ghost_agent
             other_rank = ghost_agent.local_rank
-            self.ghosted_edges[nodes] = ghosted_edge
             # not already ghosted so send agent itself
             if not agent_manager.is_ghosted_to(other_rank, local_agent.uid):
                 sync_agents[other_rank].append(local_agent.save())
-                agent_manager.tag_as_ghosted(other_rank, local_agent.uid)
 
+            self._track_edge(nodes, ghosted_edge, agent_manager)
             sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
-        self.new_edges.clear()
 
-        for edge_key in self.edges_to_update:
+        for edge_key in self.edges_to_update.difference(new_edges):
             ghosted_edge = self.ghosted_edges[edge_key]
             other_rank = ghosted_edge.ghost_agent.local_rank
             sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, ghosted_edge.edge_attr))
@@ -371,13 +496,28 @@ class SharedNetwork(SharedProjection, ABC):
         recv_agents = self.comm.alltoall(sync_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
-                agent = create_agent(agent_data)
-                # 1 because added to network
-                agent_manager.add_ghost(rank, agent, 1)
-                self.add(agent)
+                self._recv_ghost(rank, agent_data, agent_manager, create_agent)
 
         return sync_edges
 
+    def _recv_ghost(self, rank: int, agent_data: Tuple, agent_manager: AgentManager, create_agent: Callable):
+        """Adds a received agent as a ghost. It may be one already, in a buffer for example.
+
+        Args:
+            rank: the rank the agent was received from
+            agent_data: the serialized agent
+            agent_manager: the agent manager for this model
+            create_agent: a callable used to create the agent
+        """
+        agent = agent_manager.get_ghost(agent_data[0], 0)
+        if agent is None:
+            agent = create_agent(agent_data)
+            # 0 because it is referenced when its edge is added
+            agent_manager.add_ghost(rank, agent, 0)
+        else:
+            agent.update(*agent_data[1:])
+        self.add(agent)
+
     def _sync_edges(self, sync_edges: List, agent_manager: AgentManager):
         """Syncronizes edges across ranks between local and non-local agents
 
@@ -393,20 +533,46 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
         """
         recv_edges = self.comm.alltoall(sync_edges)
-        for edges in recv_edges:
+        # edges with agents that have been removed from this rank
+        not_added = [[] for _ in range(self.comm.size)]
+        for rank, edges in enumerate(recv_edges):
             for u_id, v_id, edge_attr in edges:
+                if agent_manager.get_local(u_id) is None and agent_manager.get_local(v_id) is None:
+                    not_added[rank].append((u_id, v_id))
+                    continue
+
                 u_agent = agent_manager._ghost_agents.get(u_id)
                 if u_agent is None:
                     # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
+                    u_agent = local_agent = agent_manager._local_agents[u_id]
+                    v_agent = ghost_agent = agent_manager._ghost_agents[v_id].agent
                 else:
                     # u_agent is GhostAgent so get agent from it
-                    u_agent = u_agent.agent
-                    v_agent = agent_manager._local_agents[v_id]
+                    u_agent = ghost_agent = u_agent.agent
+                    v_agent = local_agent = agent_manager._local_agents[v_id]
 
                 self.graph.add_edge(u_agent, v_agent, **edge_attr)
                 self._add_edge_key(u_agent, v_agent)
+                # either rank can update or remove the edge
+                edge_key = self._get_edge_key((u_agent, v_agent))
+                self._track_edge(edge_key, GhostedEdge(local_agent, ghost_agent, self.graph.edges[edge_key]),
+                                 agent_manager)
+
+        for edges in not_added:
+            for uid in chain(*edges):
+                ghost = agent_manager._ghost_agents.get(uid)
+                if ghost is not None:
+                    self._remove_ghost_node(ghost.agent, agent_manager)
+                    if ghost.ref_count == 0:
+                        agent_manager.delete_ghost(uid)
+
+        for edges in self.comm.alltoall(not_added):
+            for u_id, v_id in edges:
+                edge_key = self._get_edge_key((self._get_agent(u_id, agent_manager),
+                                               self._get_agent(v_id, agent_manager)))
+                self.graph.remove_edge(*edge_key)
+                self._remove_edge_key(*edge_key)
+                self._untrack_edge(edge_key, agent_manager)
 
     def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
         """Synchronizes the edges and nodes of this projection across ranks.
@@ -424,28 +590,12 @@ class SharedNetwork(SharedProjection, ABC):
         """Called prior to synchronizing ghosts and before any cross-rank movement
         synchronization.
 
-        This synchronizes any necessary proj reference count updates to
-        ranks that ghost to this rank.
-
         Args:
             agent_manager: this rank's AgentManager
         """
-        send_msg = [[] for i in range(self.comm.size)]
-        for agent in self.ghosts_to_ref:
-            if self.graph.has_node(agent):
-                ghost = agent_manager.get_ghost(agent.uid)
-                if ghost is None:
-                    agent_manager.add_ghost(agent.local_rank, agent)
-
-                # ghosting rank need to increment ref count to this rank
-                send_msg[agent.local_rank].append(agent.uid)
-
-        self.ghosts_to_ref.clear()
-
-        recv_msg = self.comm.alltoall(send_msg)
-        for rank, agents in enumerate(recv_msg):
-            for agent in agents:
-                agent_manager.tag_as_ghosted(rank, agent)
+        # the ghosts of new edges stay ghosts even if they lose all their other edges
+        for edge_key, ghosted_edge in self.new_edges.items():
+            self._reference_ghost(edge_key, ghosted_edge, agent_manager)
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         """Notifies this projection that all the agent movement synchronization has occured,
@@ -456,21 +606,22 @@ class SharedNetwork(SharedProjection, ABC):
             create_agent: a callable that can create an agent instance from
                 an agent id and data.
         """
-        for u_id, v_id, edge_attr in self._agent_moved_edges:
-            u = agent_manager.get_local(u_id)
-            if u is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                u = agent_manager.get_ghost(u_id, incr=0)
-
-            v = agent_manager.get_local(v_id)
-            if v is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                v = agent_manager.get_ghost(v_id, incr=0)
-            self.add_edge(u, v, **edge_attr)
+        # edges both of whose agents have moved: make sure the u agent's rank has the
+        # v agent as a ghost, and recreate the edge there.
+        sync_agents = [[] for _ in range(self.comm.size)]
+        for uid, rank in self._recv_ghost_requests:
+            if not agent_manager.is_ghosted_to(rank, uid):
+                sync_agents[rank].append(agent_manager.get_local(uid).save())
+        self._recv_ghost_requests.clear()
+
+        for rank, agents in enumerate(self.comm.alltoall(sync_agents)):
+            for agent_data in agents:
+                self._recv_ghost(rank, agent_data, agent_manager, create_agent)
+
+        for u_id, v_id, edge_attr in self._recv_moved_edges:
+            self.add_edge(agent_manager.get_local(u_id), self._get_agent(v_id, agent_manager), **edge_attr)
+        self._recv_moved_edges.clear()
 
-        self._agent_moved_edges.clear()
         self._synch_ghosts(agent_manager, create_agent)
 
     def _agent_moving_rank(self, moving_agent: Agent, dest_rank: int, moving_agent_data: List,
@@ -493,56 +644,30 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
 
         """
-        # 1. Check if moving agent is in edge with ghost, and ghost
-        # is not requested, meaning that the edge is an artifact of
-        # network sync and not explicitly created on this rank. In that
-        # case, remove the edge, and the node (if the node is not in any other
-        # edges)
-        #
-        # 2. Check if moving agent is in edge with local agent. This edge
-        # needs to be preserved. So, delete edge, and add this rank to the
-        # dictionary in the moved agent_data list (the data used by the dest rank
-        # to set up ghosting of the moved agent).
-        nodes_to_remove = []
-        edges_to_remove = []
-        for u, v, attr in self._edges(moving_agent, data=True): # type: ignore
-            other = v if u.uid == moving_agent.uid else u
-            if other.local_rank != self.rank and not agent_manager.is_requested(other.uid):
-                # other is ghosted and not requested so the edge is artifact of edge created
-                # on other node between u and v, so remove it.
-                edges_to_remove.append((u, v))
-                if self.num_edges(other) == 1:
-                    # other is only on this rank to to be part of the removed edge
-                    # and now the edge is gone so remove as node and ghost
-                    nodes_to_remove.append(other)
-                    agent_manager.remove_ghost(other)
-                    self._no_longer_ghosts[other.local_rank].append(other.uid)
-
-            else:
-                # moving agent participates in edges with local agents
-                # this should tell destination rank to ghost the moved
-                # agent back to this rank, so the edge remains live
-                if len(moving_agent_data) == 1:
-                    moving_agent_data.append({self.rank: 1})
-                else:
-                    if self.rank in moving_agent_data[1]:
-                        moving_agent_data[1][self.rank] += 1
-                    else:
-                        moving_agent_data[1][self.rank] = 1
-
-                # agent will be ghosted to this rank, so need to add it as a
-                # ghost
-                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
+        # The edges with ghosts are removed here. The ghost's rank knows the edge as well, and
+        # ghosts it to the destination rank. The edges with local agents are recreated,
+        # with the moving agent as a ghost, when it is known which agents have moved.
+        ghost_ranks = set()
+        for u, v, attr in list(self._edges(moving_agent, data=True)): # type: ignore
+            # edges from an agent to itself may be iterated more than once
+            if self.graph.has_edge(u, v):
                 self._agent_moved_edges.append((u.uid, v.uid, attr))
-
-        for edge in edges_to_remove:
-            self.graph.remove_edge(*edge)
-            self._remove_edge_key(*edge)
-
-        for node in nodes_to_remove:
-            self.graph.remove_node(node)
+                edge_key = self._get_edge_key((u, v))
+                self.graph.remove_edge(u, v)
+                self._remove_edge_key(u, v)
+                if edge_key in self.ghosted_edges:
+                    ghost_ranks.add(self.ghosted_edges[edge_key].ghost_agent.local_rank)
+                    self._untrack_edge(edge_key, agent_manager)
+
+        # The destination rank tags the agent as ghosted for this network
+        # when its edges are ghosted to that rank.
+        for rank in ghost_ranks:
+            moving_agent_data[1][rank] -= 1
+            if moving_agent_data[1][rank] == 0:
+                del moving_agent_data[1][rank]
 
         self.graph.remove_node(moving_agent)
+        self._moving_agents[moving_agent.uid] = (moving_agent, dest_rank)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
         """Notifies this projection that the specified agents have moved rank.
@@ -558,45 +683,80 @@ class SharedNetwork(SharedProjection, ABC):
                 EXCEPT for those moved off of the current rank.
             agent_manager: AgentManager
         """
-        stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
-        for ghost_rank, ids in enumerate(stop_ghosting_ids):
-            for id in ids:
-                agent_manager.untag_as_ghosted(ghost_rank, id)
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
-
-        for uid, dest in moved_agents:
-            if dest == self.rank:
-                # Check if moved agent was formerly a ghost on this rank
-                # and if so, then copy the edges the ghost participated in
-                # to new edges created with the now local agent, and remove
-                # the old ghost
-                ghost = agent_manager.get_ghost(uid)
-                if ghost is not None:
-                    agent = agent_manager.get_local(uid)
-                    edge_list = [e for e in self._edges(ghost, data=True)] # type: ignore
-                    for u, v, attr in edge_list:
-                        self.graph.remove_edge(u, v)
-                        if u.uid == agent.uid:
-                            self.graph.add_edge(agent, v, **attr)
-                        else:
-                            self.graph.add_edge(u, agent, **attr)
-                    self.graph.remove_node(ghost)
+        moved = {uid: dest for uid, dest in moved_agents}
+        for uid, dest in moved.items():
+            ghost = agent_manager.get_ghost(uid, 0)
+            if ghost is not None:
+                if self.graph.has_node(ghost):
+                    if dest == self.rank:
+                        self._ghost_to_local(ghost, agent_manager.get_local(uid), agent_manager)
+                    else:
+                        # moved agent is a ghost on this rank, so ghost the edges it
+                        # participates in to its new rank
+                        for edge in list(self._edges(ghost)): # type: ignore
+                            edge_key = self._get_edge_key(edge)
+                            if edge_key in self.ghosted_edges:
+                                self._unlink_edge(edge_key, agent_manager)
+                                self.new_edges[edge_key] = self.ghosted_edges[edge_key]
+                if dest != self.rank:
+                    ghost.local_rank = dest
+
+        # The edges of the agents moved off of this rank
+        moved.update((uid, dest) for uid, (_, dest) in self._moving_agents.items())
+        sync_edges = [([], []) for _ in range(self.comm.size)]
+        for u_id, v_id, edge_attr in self._agent_moved_edges:
+            u_dest, v_dest = moved.get(u_id), moved.get(v_id)
+            if u_dest is not None and v_dest is not None:
+                # neither agent's former rank is left to ghost the edge
+                if u_id in self._moving_agents:
+                    sync_edges[u_dest][0].append((u_id, v_id, edge_attr))
+                    if u_dest != v_dest:
+                        sync_edges[v_dest][1].append((v_id, u_dest))
             else:
-                # check if moved agent is a ghost on this rank,
-                # if so, then check if that agent participated in
-                # a ghosted edge. If so, then update the local rank
-                # of that ghost agent so that ghosted edge will be
-                # ghosted to new destination, and add that edge to
-                # the new edges, so it will be ghosted to new rank
-                # during next sync.
-                agent = agent_manager.get_ghost(uid, 0)
-                if agent is not None:
-                    for edge in self._edges(agent): # type: ignore
-                        edge_key = self._get_edge_key(edge)
-                        ge = self.ghosted_edges.get(edge_key, None)
-                        if ge is not None:
-                            ge.ghost_agent.local_rank = dest
-                            self.new_edges[edge_key] = ge
+                stay_id, moved_id = (v_id, u_id) if v_dest is None else (u_id, v_id)
+                if agent_manager.get_local(stay_id) is not None:
+                    # edge with a local agent, moved agent becomes a ghost on this rank
+                    ghost = agent_manager.get_ghost(moved_id, 0)
+                    if ghost is None:
+                        ghost, dest = self._moving_agents[moved_id]
+                        # 0 because it is referenced when the edge is synchronized
+                        agent_manager.add_ghost(dest, ghost, incr=0)
+                    self.add_edge(*[ghost if uid == moved_id else agent_manager.get_local(uid) for uid in (u_id, v_id)],
+                                  **edge_attr)
+
+        self._agent_moved_edges.clear()
+        self._moving_agents.clear()
+
+        for edges, requests in self.comm.alltoall(sync_edges):
+            self._recv_moved_edges += edges
+            self._recv_ghost_requests += requests
+
+    def _ghost_to_local(self, ghost: Agent, agent: Agent, agent_manager: AgentManager):
+        """Replaces a ghost agent with the now local agent, copying the edges the ghost
+        participates in to new edges created with the local agent.
+
+        Args:
+            ghost: the former ghost
+            agent: the local agent
+            agent_manager: AgentManager
+        """
+        edges = []
+        for u, v, attr in list(self._edges(ghost, data=True)): # type: ignore
+            edge_key = self._get_edge_key((u, v))
+            self._unlink_edge(edge_key, agent_manager)
+            self.ghosted_edges.pop(edge_key, None)
+            self.new_edges.pop(edge_key, None)
+            self.edges_to_update.discard(edge_key)
+            self.graph.remove_edge(u, v)
+            self._remove_edge_key(u, v)
+            edges.append((agent if u is ghost else u, agent if v is ghost else v, attr))
+
+        self._edge_counts.pop((ghost.uid, None), None)
+        if ghost is not agent:
+            self.graph.remove_node(ghost)
+        for u, v, attr in edges:
+            self._add_edge_key(u, v)
+            self.graph.add_edge(u, v, **attr)
 
 
 class UndirectedSharedNetwork(SharedNetwork):
@@ -664,9 +824,11 @@ class UndirectedSharedNetwork(SharedNetwork):
             v_agent: the v node agent
         """
         edge_key = (u_agent, v_agent)
-        self.canonical_edge_keys[edge_key] = edge_key
-        self.canonical_edge_keys[(v_agent, u_agent)] = edge_key
-        return edge_key
+        # the key of an existing edge, which may be (v, u), doesn't change
+        if edge_key not in self.canonical_edge_keys:
+            self.canonical_edge_keys[edge_key] = edge_key
+            self.canonical_edge_keys[(v_agent, u_agent)] = edge_key
+        return self.canonical_edge_keys[edge_key]
 
     def _remove_edge_key(self, u_agent: Agent, v_agent: Agent):
         """Removes the canonical edge key for the specified edge.
@@ -677,7 +839,8 @@ class UndirectedSharedNetwork(SharedNetwork):
         """
         edge_key = (u_agent, v_agent)
         self.canonical_edge_keys.pop(edge_key)
-        self.canonical_edge_keys.pop((v_agent, u_agent))
+        # None if the edge is from an agent to itself
+        self.canonical_edge_keys.pop((v_agent, u_agent), None)
 
     def add_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Adds an edge between u_agent and v_agent.
@@ -698,22 +861,16 @@ class UndirectedSharedNetwork(SharedNetwork):
         """
 
         if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
-            if not self.graph.has_node(v_agent):
-                self.ghosts_to_ref.append(v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
-            if not self.graph.has_node(u_agent):
-                self.ghosts_to_ref.append(u_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         else:
             self._add_edge_key(u_agent, v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
@@ -839,22 +996,16 @@ class DirectedSharedNetwork(SharedNetwork):
             >>> g.add_edge(agent1, agent2, weight=3.1)
         """
         if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
-            if not self.graph.has_node(v_agent):
-                self.ghosts_to_ref.append(v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
-            if not self.graph.has_node(u_agent):
-                self.ghosts_to_ref.append(u_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         else:
             self.graph.add_edge(u_agent, v_agent, **kwattr)
 
-- 
2.43.0


From 8ab2d4954446c80e0c11840d48a9d89663876307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 16/32] fix: value layers of integer types, and buffers covered
 by the same area of a neighbor on both sides

---
 src/repast4py/value_layer.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 3a53b4e..ac250a4 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -7,6 +7,7 @@
 import torch
 import numpy as np
 
+from itertools import product
 from typing import Callable, Tuple
 
 from . import geometry
@@ -469,7 +470,7 @@ class SharedValueLayer(ValueLayer):
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-        super().__init__(self.buffered_bounds, borders, 'random', dtype)
+        super().__init__(self.buffered_bounds, borders, init_value, dtype)
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
         if nd == 3:
@@ -671,11 +672,11 @@ class SharedValueLayer(ValueLayer):
         # bounds including the buffer if necessary
         self.buffered_bounds = BoundingBox(xmin, xextent, ymin, yextent, zmin, zextent)
 
-    def _recv_range(self, start, stop, local_min, local_extent, full_extent):
-        """Gets the range covered in this layer by the specified range of a
+    def _recv_ranges(self, start, stop, local_min, local_extent, full_extent):
+        """Gets the ranges covered in this layer by the specified range of a
         neighbor's locations, where that is either the same as the local area's, or
         that of a buffer on the lower or upper side of the local area, possibly
-        across a periodic border.
+        across a periodic border, or of the buffers on both sides.
 
         Args:
             start: the start of the neighbor's range
@@ -684,14 +685,17 @@ class SharedValueLayer(ValueLayer):
             local_extent: the extent of the local area in the dimension of the range
             full_extent: the extent of the full bounds in the dimension of the range
         Returns:
-            A tuple (start, stop)
+            A list of tuples (start, stop)
         """
-        if start == local_min and stop == local_min + local_extent:
-            return (start, stop)
-        if (stop - local_min) % full_extent == 0:
-            return (local_min - (stop - start), local_min)
         local_max = local_min + local_extent
-        return (local_max, local_max + (stop - start))
+        if start == local_min and stop == local_max:
+            return [(start, stop)]
+        ranges = []
+        if stop == local_min or (self.periodic and (stop - local_min) % full_extent == 0):
+            ranges.append((local_min - (stop - start), local_min))
+        if start == local_max or (self.periodic and (start - local_max) % full_extent == 0):
+            ranges.append((local_max, local_max + (stop - start)))
+        return ranges
 
     def _init_sync_data(self, num_dims, topo, buffer_size):
         """Creates the buffers used to send and receive the buffered areas, and the grid slices
@@ -717,7 +721,9 @@ class SharedValueLayer(ValueLayer):
         recv_ranges = self.cart_comm.alltoall(send_ranges)
 
         send_slices = [to_slices(ranges) for ngh_ranges in send_ranges for ranges in ngh_ranges]
-        recv_slices = [to_slices([self._recv_range(*ranges[d], mins[d], extents[d], full_extents[d]) for d in range(num_dims)])
+        # an area that is buffered on both sides is received into both
+        recv_slices = [[to_slices(recv) for recv in product(*(self._recv_ranges(*ranges[d], mins[d], extents[d], full_extents[d])
+                                                              for d in range(num_dims)))]
                        for ngh_ranges in recv_ranges for ranges in ngh_ranges]
 
         def create_msg(all_ranges):
@@ -752,9 +758,11 @@ class SharedValueLayer(ValueLayer):
             recv_msg, recv_slices = self.recv_data
             recv_buf = recv_msg[0]
             disp = 0
-            for tslice in recv_slices:
-                area = self.grid[tslice]
-                self.grid[tslice] = torch.as_tensor(recv_buf[disp: disp + area.numel()]).reshape(area.shape)
+            for tslices in recv_slices:
+                area = self.grid[tslices[0]]
+                vals = torch.as_tensor(recv_buf[disp: disp + area.numel()]).reshape(area.shape)
+                for tslice in tslices:
+                    self.grid[tslice] = vals
                 disp += area.numel()
         self._buffer_self()
 
-- 
2.43.0


From 40744f6b33829759d58cb3bbb1cbb4815f58ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 17/32] fix: network files with nested attributes or braces in
 attribute values

---
 src/repast4py/network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 5d270e2..9a0505e 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -15,7 +15,6 @@ from dataclasses import dataclass
 import numpy as np
 import networkx as nx
 from itertools import chain
-import re
 import math
 import json
 from abc import ABC, abstractmethod
@@ -1055,13 +1054,13 @@ def _parse_graph_desc(line: str):
                          'format: "id [0|1]", where 0 indicates an undirected graph and 1 directed')
 
 
-_LINE_P = re.compile('\{[^}]+\}|\S+')
 _EMPTY_DICT = {}
 
 
 def _parse_node(line: str, line_num: int, graph_data: GraphData, ctx, create_agent: Callable):
     try:
-        vals = _LINE_P.findall(line)
+        # everything following the first 3 elements is the json dictionary
+        vals = line.split(None, 3)
         n_vals = len(vals)
         if n_vals < 3 or n_vals > 4:
             raise ValueError
@@ -1094,7 +1093,8 @@ def _request_remote_agents(graph_data: GraphData, ctx, create_agent: Callable):
 def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
     requested = set()
     try:
-        vals = _LINE_P.findall(line)
+        # everything following the first 2 elements is the json dictionary
+        vals = line.split(None, 2)
         n_vals = len(vals)
         if n_vals < 2 or n_vals > 3:
             raise ValueError
-- 
2.43.0


From 61501c00815832b07288c389ecc6c3b83ac7ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 18/32] fix: voided events take no part in the random order of
 a tick's events

---
 src/repast4py/schedule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 7ddaafb..1c6e6d5 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -426,7 +426,10 @@ class Schedule:
             go = True
             while go:
                 heapq.heappop(self.queue)
-                self.executing_group.add_evt(evt)
+                # a voided event must not take part in the random ordering of the others: it
+                # is not checkpointed, and the order would then differ in a restored schedule
+                if evt.metadata['__type'] != EvtType.VOID:
+                    self.executing_group.add_evt(evt)
                 if len(self.queue) == 0:
                     go = False
                 else:
-- 
2.43.0


From a11473475066e66a516b2147ec82edee73fd44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 19/32] fix: restoring a schedule without its stop

---
 src/repast4py/checkpoint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 115a8e5..5c4fd41 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -250,7 +250,10 @@ class Checkpoint:
                     if schedule_state['tick'] == evt_data.at:
                         warnings.warn(f"Scheduling stop at first tick {evt_data.at} in restored schedule")
                     evt = runner.stop
-                
+                else:
+                    # the user is responsible for scheduling the stop
+                    evt = IGNORE_EVT
+
                 if evt != IGNORE_EVT:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
-- 
2.43.0


From ef6b97bd950537b32e38cbfc59b56c66d7c3a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 20/32] fix: restoring directed edges from agents on other
 ranks

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 5c4fd41..3040ffe 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -406,7 +406,7 @@ class NetworkRestorer:
         return (0, node_uid, other_uid, e_attribs)
     
     def _make_pre_edge(self, node_uid, other_uid, e_attribs):
-        return (1, other_uid, node_uid, e_attribs)
+        return (1, node_uid, other_uid, e_attribs)
     
     def _add_suc_edge(self, node, other, e_attribs):
         self.network.add_edge(node, other, **e_attribs)
-- 
2.43.0


From cc1f7640cbb81a4e62b9d7967df11a39ec1d9426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 21/32] fix: checkpointing agents without a location, and the
 order of agents sharing one

---
 src/repast4py/checkpoint.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 3040ffe..5530fcc 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -315,7 +315,14 @@ class Checkpoint:
         locations = {}
 
         for agent in context.agents():
-            locations[agent.uid] = space.get_location(agent).coordinates
+            pt = space.get_location(agent)
+            # agents without a location have nothing to save
+            if pt is not None and agent.uid not in locations:
+                # agents at the same location are saved in the order in which they arrived there
+                for other in space.get_agents(pt):
+                    if context.agent(other.uid) is not None:
+                        locations[other.uid] = pt.coordinates
+                locations.setdefault(agent.uid, pt.coordinates)
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
@@ -329,15 +336,11 @@ class Checkpoint:
             space: the space to restore the agents into.
         """
         locations = self.spaces[space.name]
-        if isinstance(space, SharedGrid):
-            for agent in context.agents():
-                location = locations[agent.uid]
-                space.move(agent, DiscretePoint(location[0], location[1], location[2]))
-        else:
-            for agent in context.agents():
-                location = locations[agent.uid]
-                space.move(agent, ContinuousPoint(location[0], location[1], location[2]))            
-
+        pt_class = DiscretePoint if isinstance(space, SharedGrid) else ContinuousPoint
+        for uid, location in locations.items():
+            agent = context.agent(uid)
+            if agent is not None:
+                space.move(agent, pt_class(location[0], location[1], location[2]))
 
     def save_network(self, network: SharedNetwork, rank: int):
         """Saves the specified network to this Checkpoint instance.
-- 
2.43.0


From 263b2f3161e2fd4f343531e69c7e158ea7a45ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 22/32] fix: moving an agent to the rank it is on leaves it
 there

---
 src/repast4py/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index f326aa4..e15ea2a 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -547,6 +547,9 @@ class SharedContext:
         sent_agents = [[] for i in range(self.comm.size)]
         moved_agents = []
         for uid, rank in agents_to_move:
+            if rank == self.rank:
+                # already there
+                continue
             agent = self._agent_manager.remove_local(uid)
             del self._agents_by_type[uid[1]][uid]
             moved_agents.append((agent, rank))
-- 
2.43.0


From 0fd3f5cbebd9fa4ecb6ca27ef0f75c9d389e5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 23/32] fix: the order of agents in a single occupancy
 continuous space

---
 src/repast4py/SpatialTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index e5d332d..0840abc 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -209,7 +209,8 @@ template<typename PointType>
 class SOItems {
 
 private:
-    std::set<PointType*> points;
+    // ordered by location, and not by address, so that the order of the agents is reproducible
+    std::set<PointType*, PtrPointComp<PointType>> points;
 
 public:
     SOItems();
-- 
2.43.0


From 0507ea04fd83841be46e300818633edde8b68b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 24/32] fix: agents of a type a rank has never had are none,
 not a KeyError

---
 src/repast4py/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index e15ea2a..9e2744e 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -377,7 +377,7 @@ class SharedContext:
             if agent_type is None:
                 lst = list(self._agent_manager._local_agents.values())
             else:
-                lst = list(self._agents_by_type[agent_type].values())
+                lst = list(self._agents_by_type.get(agent_type, {}).values())
 
             if shuffle:
                 random.default_rng.shuffle(lst)
@@ -389,7 +389,7 @@ class SharedContext:
             if agent_type is None:
                 return self._agent_manager._local_agents.values().__iter__()
             else:
-                return self._agents_by_type[agent_type].values().__iter__()
+                return self._agents_by_type.get(agent_type, {}).values().__iter__()
 
     def agent(self, agent_id) -> Agent:
         """Gets the specified agent from the collection of local
@@ -434,7 +434,7 @@ class SharedContext:
         counts = {}
         if agent_type_ids:
             for i in agent_type_ids:
-                counts[i] = len(self._agents_by_type[i])
+                counts[i] = len(self._agents_by_type.get(i, {}))
         else:
             counts[-1] = len(self._agent_manager._local_agents)
 
-- 
2.43.0


From 1e810416224688d924163d0cd2c8ec9392299ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 25/32] fix: ghosts added to a projection that is added to the
 context later were never released

---
 src/repast4py/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 0a87079..043db29 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -277,14 +277,18 @@ class AgentManager:
         self._ghost_agents[uid] = ghost_agent
 
     def add_ghosts_to_projection(self, projection):
-        """Adds all the ghost agents to the specified projection.
+        """Adds the requested ghost agents to the specified projection.
+
+        The other ghosts (e.g., those in a buffer) are in the projections that
+        ghost them, and are ghosts only as long as those do.
 
         Args:
             projection: The projection to add the ghosts to
         """
-        for gh in self._ghost_agents.values():
-            gh.ref_count += 1
-            projection.add(gh.agent)
+        for uid, gh in self._ghost_agents.items():
+            if uid in self._req_ghosts:
+                gh.ref_count += 1
+                projection.add(gh.agent)
 
     def get_ghost(self, agent_uid: Tuple, incr: int = 1) -> Agent:
         """Gets the agent with the specified id from the collection
-- 
2.43.0


From 5b5c1196c4f7f540dcff32ddeb150cb2e59ace59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 26/32] fix: adding an agent to a space that already contains
 it

The agent was left at its former location in the location map, and the
replaced entry was leaked. The same agent keeps its location, and another
agent object with the same id replaces the former one.
---
 src/repast4py/space.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/repast4py/space.h b/src/repast4py/space.h
index 829ea81..55ac30a 100644
--- a/src/repast4py/space.h
+++ b/src/repast4py/space.h
@@ -94,6 +94,12 @@ BaseSpace<PointType, AccessorType, BorderType>::~BaseSpace() {
 
 template<typename PointType, typename AccessorType, typename BorderType>
 bool BaseSpace<PointType, AccessorType, BorderType>::add(R4Py_Agent* agent) {
+    auto iter = agent_map.find(agent->aid);
+    if (iter != agent_map.end()) {
+        if (iter->second->agent == agent) return true;
+        // replaced by the added agent, so must not be left at its location
+        remove(agent->aid);
+    }
     auto item = std::make_shared<SpaceItem<PointType>>();
     item->agent = agent;
     Py_INCREF(agent);
-- 
2.43.0


From ac8a2a0e4fed34772e4569bbc256e0bbe39c4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 27/32] fix: requested ghosts stay in a space when they leave
 its buffer

A requested ghost is in all the projections of its rank, but was removed from
the space, and not added again, when it was no longer in a buffer.
---
 src/repast4py/space.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/repast4py/space.py b/src/repast4py/space.py
index 52b0e16..d597856 100644
--- a/src/repast4py/space.py
+++ b/src/repast4py/space.py
@@ -203,6 +203,9 @@ class SharedGrid(_SharedGrid, SharedProjection):
                 if agent_manager.get_ghost(agent.uid, 0) is agent:
                     self.remove(agent)
                     agent_manager.remove_ghost(agent)
+                    if agent_manager.is_requested(agent.uid):
+                        # requested ghosts remain in all the projections
+                        self.add(agent)
             self.buffered_agents.clear()
 
     def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
@@ -368,6 +371,9 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
                 if agent_manager.get_ghost(agent.uid, 0) is agent:
                     self.remove(agent)
                     agent_manager.remove_ghost(agent)
+                    if agent_manager.is_requested(agent.uid):
+                        # requested ghosts remain in all the projections
+                        self.add(agent)
 
             self.buffered_agents.clear()
 
-- 
2.43.0


From d589bab4c966f314067c961e8a08c34381f48d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 28/32] fix: iterating over the agents of a query while some of
 them leave

The iterator held on to the list node of the next agent and to agents without
a reference, and crashed or returned something else when that agent was
removed from the space, or moved, during the iteration.
---
 src/repast4py/core.h | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/repast4py/core.h b/src/repast4py/core.h
index 7e69d80..50376de 100644
--- a/src/repast4py/core.h
+++ b/src/repast4py/core.h
@@ -12,6 +12,7 @@
 
 #include <list>
 #include <memory>
+#include <vector>
 
 #include "types.h"
 
@@ -62,11 +63,14 @@ class TAgentIter : public AgentIter {
 
 private:
     std::shared_ptr<IterableT> iterable_;
-    typename IterableT::iterator iter_;
+    // the agents when the iteration started: the iterable may change during the
+    // iteration, when an agent is removed, for example.
+    std::vector<R4Py_Agent*> agents_;
+    std::vector<R4Py_Agent*>::iterator iter_;
 
 public:
     TAgentIter(std::shared_ptr<IterableT>);
-    virtual ~TAgentIter() {}
+    virtual ~TAgentIter();
 
     R4Py_Agent* next() override;
     bool hasNext() override;
@@ -75,16 +79,34 @@ public:
 
 template<typename IterableT>
 TAgentIter<IterableT>::TAgentIter(std::shared_ptr<IterableT> iterable) : AgentIter(),
-    iterable_{iterable}, iter_(iterable_->begin()) {}
+    iterable_{iterable}, agents_{}, iter_{}
+{
+    reset();
+}
+
+template<typename IterableT>
+TAgentIter<IterableT>::~TAgentIter() {
+    for (auto agent : agents_) {
+        Py_DECREF(agent);
+    }
+}
 
 template<typename IterableT>
 bool TAgentIter<IterableT>::hasNext() {
-    return iter_ != iterable_->end();
+    return iter_ != agents_.end();
 }
 
 template<typename IterableT>
 void TAgentIter<IterableT>::reset() {
-    iter_ = iterable_->begin();
+    std::vector<R4Py_Agent*> previous(iterable_->begin(), iterable_->end());
+    for (auto agent : previous) {
+        Py_INCREF(agent);
+    }
+    agents_.swap(previous);
+    iter_ = agents_.begin();
+    for (auto agent : previous) {
+        Py_DECREF(agent);
+    }
 }
 
 template<typename IterableT>
-- 
2.43.0


From 9fcb80cb7eebb1b98838136ee44737d99fda7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 29/32] fix: save copies of locations and edge attributes in a
 checkpoint

A checkpoint that is kept in memory when the run goes on held the
locations and edge attributes themselves, and so those at the time
it is written.
---
 src/repast4py/checkpoint.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 5530fcc..9b145ca 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -321,8 +321,9 @@ class Checkpoint:
                 # agents at the same location are saved in the order in which they arrived there
                 for other in space.get_agents(pt):
                     if context.agent(other.uid) is not None:
-                        locations[other.uid] = pt.coordinates
-                locations.setdefault(agent.uid, pt.coordinates)
+                        # a copy, the space updates an agent's coordinates when the agent moves
+                        locations[other.uid] = pt.coordinates.copy()
+                locations.setdefault(agent.uid, pt.coordinates.copy())
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
@@ -353,13 +354,13 @@ class Checkpoint:
         if network.is_directed:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(o.uid, o.local_rank, network.graph[nd][o]) for o in network.graph.successors(nd)]) # type: ignore
-                edge_data.append([(o.uid, o.local_rank, network.graph[o][nd]) for o in network.graph.predecessors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[nd][o])) for o in network.graph.successors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[o][nd])) for o in network.graph.predecessors(nd)]) # type: ignore
                 data.append(edge_data)
         else:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(n.uid, n.local_rank, network.graph[nd][n]) for n in network.graph.neighbors(nd)])
+                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                 data.append(edge_data)
 
         net_data = {"name": network.name, "directed": network.is_directed,
-- 
2.43.0


From 711e60997c7222e7b67e7b014f2613470167f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:05 +0000
Subject: [PATCH 30/32] fix: an agent removed from a network only loses its
 edges on all ranks, and can still be moved or removed

---
 src/repast4py/context.py |  4 +++-
 src/repast4py/network.py | 36 ++++++++----------------------------
 2 files changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 9e2744e..6e3ea7a 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -125,7 +125,9 @@ class SharedContext:
         self._agent_manager.delete_local(agent.uid, self.removed_ghosteds)
         del self._agents_by_type[agent.uid[1]][agent.uid]
         for proj in self.projections.values():
-            proj.remove(agent)
+            # the agent may have been removed from the projection already
+            if agent in proj:
+                proj.remove(agent)
 
     def _gather_oob_data(self, oob_agents: List):
         """Gets the agent data from any agents that have moved out-of-bounds
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 9a0505e..0d4ec39 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -71,9 +71,6 @@ class SharedNetwork(SharedProjection, ABC):
         self.new_edges = {}
         # key is edge tuple, val is idx of ghost agent in tuple
         self.edges_to_remove = {}
-        # the keys of ghosted edges that are gone because an agent
-        # has been removed from this network
-        self._dropped_edges = []
         # ghost agents whose new edge was removed before it was synchronized
         self._unlinked_ghosts = []
         # the ghosted edges counted in _edge_counts for the rank of their ghost agent,
@@ -225,28 +222,12 @@ class SharedNetwork(SharedProjection, ABC):
         """
         if self.graph.has_node(agent):
             for u, v in list(self._edges(agent)): # type: ignore
-                self._drop_edge(u, v)
+                # edges from an agent to itself may be iterated more than once
+                if self.graph.has_edge(u, v):
+                    self.remove_edge(u, v)
 
         self.graph.remove_node(agent)
 
-    def _drop_edge(self, u_agent: Agent, v_agent: Agent):
-        """Removes the edge between the specified agents, one of which is leaving
-        this network, from the graph and from any pending synchronization.
-
-        Args:
-            u_agent: the u node of the edge
-            v_agent: the v node of the edge
-        """
-        # edges from an agent to itself may be iterated more than once
-        if self.graph.has_edge(u_agent, v_agent):
-            edge_key = self._get_edge_key((u_agent, v_agent))
-            self.graph.remove_edge(u_agent, v_agent)
-            self._remove_edge_key(u_agent, v_agent)
-            self.edges_to_update.discard(edge_key)
-            self._remove_new_edge(edge_key)
-            if edge_key in self.ghosted_edges:
-                self._dropped_edges.append(edge_key)
-
     def _remove_new_edge(self, edge_key: Tuple):
         """Removes the specified edge from the edges to be ghosted to the rank of its ghost agent.
 
@@ -336,10 +317,6 @@ class SharedNetwork(SharedProjection, ABC):
         Args:
             agent_manager: AgentManager used to manage agent synchronization
         """
-        for edge_key in self._dropped_edges:
-            self._untrack_edge(edge_key, agent_manager)
-        self._dropped_edges.clear()
-
         sync_edges = [[] for i in range(self.comm.size)]
         for edge, ghost_idx in self.edges_to_remove.items():
             ghost = edge[ghost_idx]
@@ -647,7 +624,9 @@ class SharedNetwork(SharedProjection, ABC):
         # ghosts it to the destination rank. The edges with local agents are recreated,
         # with the moving agent as a ghost, when it is known which agents have moved.
         ghost_ranks = set()
-        for u, v, attr in list(self._edges(moving_agent, data=True)): # type: ignore
+        # the agent may have been removed from this network
+        in_network = self.graph.has_node(moving_agent)
+        for u, v, attr in list(self._edges(moving_agent, data=True)) if in_network else []: # type: ignore
             # edges from an agent to itself may be iterated more than once
             if self.graph.has_edge(u, v):
                 self._agent_moved_edges.append((u.uid, v.uid, attr))
@@ -665,7 +644,8 @@ class SharedNetwork(SharedProjection, ABC):
             if moving_agent_data[1][rank] == 0:
                 del moving_agent_data[1][rank]
 
-        self.graph.remove_node(moving_agent)
+        if in_network:
+            self.graph.remove_node(moving_agent)
         self._moving_agents[moving_agent.uid] = (moving_agent, dest_rank)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
-- 
2.43.0


From ae0bca32125364307c613d739a32d6016a688163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:10 +0000
Subject: [PATCH 31/32] fix: an agent moved by move_agents does not take over
 the location of its former buffered ghost

---
 src/repast4py/context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 6e3ea7a..c9be469 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -569,8 +569,12 @@ class SharedContext:
         for agents in recv_data:
             for agent_data in agents:
                 agent = create_agent(agent_data[0])
-                if agent.uid in self._agent_manager._ghost_agents:
+                ghost = self._agent_manager.get_ghost(agent.uid, 0)
+                if ghost is not None:
                     ghosts_to_remove.append(agent.uid)
+                    # the agent does not take over the location of a buffered ghost
+                    for proj in self.bounded_projs.values():
+                        proj.remove(ghost)
                 self.add(agent)
                 # update with data where to ghost to
                 if len(agent_data) == 2:
-- 
2.43.0


From cf1220f9a46046f0d2cad6daf3e7ca78d5be5942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:45 +0000
Subject: [PATCH 32/32] fix: sticky borders keep a location within the bounds,
 and leave one that already is unchanged

---
 src/repast4py/borders.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index 189ca5a..1ce2fad 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -7,6 +7,9 @@
 #ifndef SRC_BORDERS_H
 #define SRC_BORDERS_H
 
+#include <algorithm>
+#include <cmath>
+
 #include "types.h"
 #include "geometry.h"
 
@@ -49,6 +52,17 @@ struct Offset<R4Py_ContinuousPoint> {
     constexpr static double value = 0.00000001;
 };
 
+template <typename PointType, typename coord_type>
+coord_type sticky_coord(coord_type v, coord_type min, coord_type max) {
+    // a location within the bounds is not changed
+    if (v >= min && v < max) return v;
+
+    coord_type last = max - Offset<PointType>::value;
+    // the offset from a large max can be rounded away, and the max is not part of the space
+    if (last == max) last = std::nextafter(max, min);
+    return std::max(min, std::min(last, v));
+}
+
 template <typename PointType>
 void StickyBorders<PointType>::transform(const PointType* pt, PointType* transformed_pt) {
     coord_type* data = (coord_type *)PyArray_DATA(pt->coords);
@@ -64,9 +78,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, PointType* transfo
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    t_data[0] = sticky_coord<PointType, coord_type>(data[0], bounds_.xmin_, bounds_.xmax_);
+    t_data[1] = sticky_coord<PointType, coord_type>(data[1], bounds_.ymin_, bounds_.ymax_);
+    t_data[2] = sticky_coord<PointType, coord_type>(data[2], bounds_.zmin_, bounds_.zmax_);
 }
 
 template<typename PointType>
@@ -82,9 +96,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    transformed_pt.x = sticky_coord<PointType, coord_type>(data[0], bounds_.xmin_, bounds_.xmax_);
+    transformed_pt.y = sticky_coord<PointType, coord_type>(data[1], bounds_.ymin_, bounds_.ymax_);
+    transformed_pt.z = sticky_coord<PointType, coord_type>(data[2], bounds_.zmin_, bounds_.zmax_);
 }
 
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
-- 
2.43.0

