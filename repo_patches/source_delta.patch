From 84a017f437ab5ca6652d77e77755df661a7546a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:46 +0000
Subject: [PATCH 01/31] fix: consolidate IDs across chunks holding a single
 timestep

Tracking with merging skipped the end-of-chunk ID consolidation for time chunks
of length one, so the recorded mergers depended on the chunking of the input.
---
 marEx/track.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index dd83d63..19127cb 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3599,12 +3599,16 @@ class tracker:
                 if iteration == 10:
                     logger.warning(f"Resolving mergers at timestep {absolute_t} did not converge after 10 iterations")
 
-            # End-of-chunk consolidation: consolidate the last timestep if chunk has multiple timesteps
-            if chunk_data.sizes[self.timedim] >= 2:
+            # End-of-chunk consolidation: consolidate the last timestep against the one before it
+            # (which lies in the previous chunk if this chunk holds a single timestep)
+            if chunk_data.sizes[self.timedim] >= 2 or updated_chunks:
 
                 # Get last and second-to-last timesteps
                 last_t_data = chunk_data.isel({self.timedim: -1})
-                second_last_t_data = chunk_data.isel({self.timedim: -2})
+                if chunk_data.sizes[self.timedim] >= 2:
+                    second_last_t_data = chunk_data.isel({self.timedim: -2})
+                else:
+                    second_last_t_data = updated_chunks[-1][2].isel({self.timedim: -1})
 
                 # Consolidate last timestep using second-to-last as reference
                 consolidated_last, object_props = self.consolidate_object_ids(
-- 
2.43.0


From 8345bf4b465d514c029c19eb7d1982eb80b24ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:57 +0000
Subject: [PATCH 02/31] fix: pad hole filling by its full reach so that objects
 on the date line keep their edges

Closing followed by opening with radius R_fill reaches 4 * R_fill cells; with
padding of only 2 * R_fill, cells at the (periodic) boundary of the grid were
eroded as if the domain ended there.
---
 marEx/track.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 19127cb..90796be 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1613,6 +1613,7 @@ class tracker:
             y, x = np.ogrid[-R_fill : R_fill + 1, -R_fill : R_fill + 1]
             r = x**2 + y**2
             diameter = 2 * R_fill
+            pad_width = 2 * diameter  # Closing followed by opening reaches 4 * R_fill cells
             se_kernel = r < (R_fill**2) + 1
             mode = "wrap" if not self.regional_mode else "edge"
 
@@ -1622,7 +1623,7 @@ class tracker:
                     pass  # No morphological operations needed
                 else:
                     # Pad data to avoid edge effects
-                    data_bin = data_bin.pad({self.ydim: diameter, self.xdim: diameter}, mode=mode)
+                    data_bin = data_bin.pad({self.ydim: pad_width, self.xdim: pad_width}, mode=mode)
                     data_coords = data_bin.coords
                     data_dims = data_bin.dims
 
@@ -1637,8 +1638,8 @@ class tracker:
                     data_bin = xr.DataArray(data_bin, coords=data_coords, dims=data_dims)
                     data_bin = data_bin.isel(
                         {
-                            self.ydim: slice(diameter, -diameter),
-                            self.xdim: slice(diameter, -diameter),
+                            self.ydim: slice(pad_width, -pad_width),
+                            self.xdim: slice(pad_width, -pad_width),
                         }
                     )
             else:  # pragma: no cover
-- 
2.43.0


From 058debfcfd3dce248f27f083e7b1462fb6521c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:57 +0000
Subject: [PATCH 03/31] fix: do not wrap latitude from pole to pole when
 filling spatial holes

---
 marEx/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 90796be..3add177 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1623,7 +1623,8 @@ class tracker:
                     pass  # No morphological operations needed
                 else:
                     # Pad data to avoid edge effects
-                    data_bin = data_bin.pad({self.ydim: pad_width, self.xdim: pad_width}, mode=mode)
+                    # N.B.: Only longitude is periodic -- latitude must not wrap from pole to pole
+                    data_bin = data_bin.pad({self.ydim: pad_width}, mode="edge").pad({self.xdim: pad_width}, mode=mode)
                     data_coords = data_bin.coords
                     data_dims = data_bin.dims
 
-- 
2.43.0


From 424fd5e84a0627bfbe2c611479ffd480628f6e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:49 +0000
Subject: [PATCH 04/31] fix: unwrap object centroids at the widest gap of the
 periodic axis

On grids with fewer than 200 columns every object counts as near both edges, and
objects crossing the central meridian were split in half, which placed their
centroid on the opposite side of the globe.
---
 marEx/track.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 3add177..6b2cf01 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2088,11 +2088,9 @@ class tracker:
         # N.B.: We calculate _near_ rather than touching, to catch the edge case where the
         # object may be split and straddling the boundary !
         if near_left_BC and near_right_BC:
-            # Adjust x coordinates that are near right edge
+            # Adjust x coordinates so that the object does not straddle the boundary
             x_indices = np.nonzero(binary_mask)[1]
-            x_indices_adj = x_indices.copy()
-            right_side = x_indices > binary_mask.shape[1] // 2
-            x_indices_adj[right_side] -= binary_mask.shape[1]
+            x_indices_adj = unwrap_periodic_indices(x_indices, binary_mask.shape[1])
 
             x_centroid = np.mean(x_indices_adj)
             if x_centroid < 0:  # Ensure centroid is positive
@@ -3243,9 +3241,7 @@ class tracker:
 
                             if near_left and near_right:
                                 # Object wraps around - adjust coordinates
-                                x_adjusted = x_indices.copy().astype(np.float64)
-                                right_side = x_indices > nx / 2
-                                x_adjusted[right_side] -= nx
+                                x_adjusted = unwrap_periodic_indices(x_indices, nx).astype(np.float64)
 
                                 # Area-weighted mean with adjusted coordinates
                                 centroid_x_pix = np.sum(x_adjusted * pixel_areas) / total_area
@@ -4829,6 +4825,21 @@ operations on both structured and unstructured grids.
 """
 
 
+def unwrap_periodic_indices(x_indices: NDArray[np.int64], nx: int) -> NDArray[np.int64]:
+    """
+    Unwrap indices on a periodic axis of size nx by cutting the axis at its widest empty gap.
+
+    Indices beyond the gap are shifted by -nx, such that the indices of an object
+    straddling the periodic boundary become contiguous.
+    """
+    columns = np.unique(x_indices)
+    gaps = np.diff(np.append(columns, columns[0] + nx))
+    last_before_gap = columns[len(gaps) - 1 - np.argmax(gaps[::-1])]
+    if last_before_gap == columns[-1]:
+        return x_indices  # The widest gap already contains the boundary
+    return np.where(x_indices > last_before_gap, x_indices - nx, x_indices)
+
+
 @jit(nopython=True, parallel=True, fastmath=True)
 def wrapped_euclidian_distance_mask_parallel(
     mask_values: NDArray[np.bool_],
-- 
2.43.0


From 588142c36a92fce9064b81b93d68e0415e29397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:49 +0000
Subject: [PATCH 05/31] fix: record all siblings of a merger in the merge
 ledger

Every event listed only its own ID in each sibling slot.
---
 marEx/track.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 6b2cf01..5b749d1 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3078,7 +3078,8 @@ class tracker:
                     valid_mask = IDs_at_time > 0
                     if np.any(valid_mask):
                         # Create expanded array for sibling_ID dimension
-                        expanded_IDs = np.broadcast_to(IDs_at_time, (len(time_block.sibling_ID), len(IDs_at_time)))
+                        sibling_IDs = np.where(valid_mask, IDs_at_time, -1)[:, np.newaxis]
+                        expanded_IDs = np.broadcast_to(sibling_IDs, (len(time_block.sibling_ID), len(IDs_at_time)))
                         result.loc[{self.timedim: time_val, "ID": IDs_at_time[valid_mask]}] = expanded_IDs[:, valid_mask]
 
                 # Handle multiple mergers case
@@ -3086,8 +3087,9 @@ class tracker:
                     for merger_IDs in IDs_at_time:
                         valid_mask = merger_IDs > 0
                         if np.any(valid_mask):
+                            # All parents of this merger are siblings (with -1 as padding)
                             expanded_IDs = np.broadcast_to(
-                                merger_IDs,
+                                np.where(valid_mask, merger_IDs, -1)[:, np.newaxis],
                                 (len(time_block.sibling_ID), len(merger_IDs)),
                             )
                             result.loc[{self.timedim: time_val, "ID": merger_IDs[valid_mask]}] = expanded_IDs[:, valid_mask]
-- 
2.43.0


From c2b72cbc99a9002634688de93ed7e3d5dbdd0152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:49 +0000
Subject: [PATCH 06/31] fix: do not convert the caller's coordinates in place

Tracking data with coordinates in radians rewrote the coordinates of the input
array itself, so a second use of the same array was converted twice.
---
 marEx/track.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 5b749d1..342b35e 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -396,6 +396,7 @@ class tracker:
         self.lat_init = data_bin[self.ycoord].persist()  # Save in original units
         self.lon_init = data_bin[self.xcoord].persist()
         self._unify_coordinates()
+        data_bin = self.data_bin  # Coordinates now in degrees
 
         self.mask = mask
         self.R_fill = int(R_fill)
@@ -972,8 +973,13 @@ class tracker:
 
         # Convert lat & lon to degrees
         if self.coordinate_units == "radians":
-            self.data_bin[self.xcoord] = self.data_bin[self.xcoord] * 180.0 / np.pi
-            self.data_bin[self.ycoord] = self.data_bin[self.ycoord] * 180.0 / np.pi
+            # N.B.: Do not modify the coordinates of the user's input in-place
+            self.data_bin = self.data_bin.assign_coords(
+                {
+                    self.xcoord: self.data_bin[self.xcoord] * 180.0 / np.pi,
+                    self.ycoord: self.data_bin[self.ycoord] * 180.0 / np.pi,
+                }
+            )
 
     def _remap_coordinates(self, events_ds: xr.Dataset) -> xr.Dataset:
         """Remap coordinates to original lat/lon values after processing.
-- 
2.43.0


From e3572c23b90f49da2ccab3b58c52162d181bbbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:10 +0000
Subject: [PATCH 07/31] fix: support preprocessing checkpoints on structured
 grids

checkpoint='save' and 'load' failed with an AttributeError because temp_dir was
only stored for unstructured grids.
---
 marEx/track.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index 342b35e..b1b07c5 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -418,6 +418,7 @@ class tracker:
                 suggestions=["Use data_bin.chunk({'time': 10}) to chunk the data"],
             )
         self.unstructured_grid = unstructured_grid
+        self.scratch_dir = temp_dir
         self.checkpoint = checkpoint
         self.debug = debug
 
@@ -1259,6 +1260,13 @@ class tracker:
         if not checkpoint:
             checkpoint = self.checkpoint
 
+        if checkpoint and ("save" in checkpoint or "load" in checkpoint) and not self.scratch_dir:
+            raise ConfigurationError(
+                "Missing temporary directory for checkpointing",
+                details="Checkpoints are stored in temp_dir",
+                suggestions=["Provide temp_dir parameter: tracker(..., temp_dir='/tmp/marex')"],
+            )
+
         def load_data_from_checkpoint() -> xr.DataArray:
             """Load preprocessed data from checkpoint files."""
             data_bin_preprocessed: xr.DataArray = xr.open_zarr(
-- 
2.43.0


From 7d52e5e2f568b73393533f827358d4e874b9a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:10 +0000
Subject: [PATCH 08/31] fix: invalidate the old checkpoint before overwriting
 it

A save interrupted after (partially) rewriting the data left the statistics of the
previous checkpoint in place, and checkpoint='load' combined the two silently.
---
 marEx/track.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index b1b07c5..070b699 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1331,6 +1331,11 @@ class tracker:
             logger.info("Saving preprocessed data to checkpoint")
             with log_timing(logger, "Checkpoint saving"):
                 time.sleep(5)
+                # The statistics file is written last and marks the checkpoint as complete:
+                #  Remove it first, so that an interrupted save can never be loaded with old statistics
+                stats_path = f"{self.scratch_dir}/marEx_checkpoint_stats.npz"
+                if os.path.exists(stats_path):
+                    os.remove(stats_path)
                 data_bin_filtered.name = "data_bin_preproc"
                 data_bin_filtered.to_zarr(
                     f"{self.scratch_dir}/marEx_checkpoint_proc_bin.zarr", mode="w"
-- 
2.43.0


From 799fb49edb586fb7b01771a13bdafaeb6032a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:22 +0000
Subject: [PATCH 09/31] fix: keep unstructured objects of exactly the minimum
 area

area_filter_absolute is documented as the minimum area to be retained, and is
applied as such on structured grids.
---
 marEx/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 070b699..181f17e 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1857,7 +1857,7 @@ class tracker:
                 area_threshold = self.area_filter_absolute
             else:
                 area_threshold = np.percentile(object_areas, self.area_filter_quartile * 100)
-            N_objects_filtered = np.sum(object_areas > area_threshold)
+            N_objects_filtered = np.sum(object_areas >= area_threshold)
 
             def filter_area_binary(cluster_IDs_0: NDArray[np.int32], keep_IDs_0: NDArray[np.int32]) -> NDArray[np.bool_]:
                 """Keep only clusters above threshold area."""
@@ -1866,7 +1866,7 @@ class tracker:
                 return keep_where
 
             # Create filtered binary data
-            keep_IDs = xr.where(cluster_sizes > area_threshold, unique_cluster_IDs, 0)
+            keep_IDs = xr.where(cluster_sizes >= area_threshold, unique_cluster_IDs, 0)
 
             data_bin_filtered = xr.apply_ufunc(
                 filter_area_binary,
-- 
2.43.0


From 7d9acfd73fcd880678d58a69d61875a279a00ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:50 +0000
Subject: [PATCH 10/31] fix: never return None from a failed zarr checkpoint

Irregular chunks of a DataArray were never detected (its chunks are a plain tuple),
and the resulting zarr error was swallowed without reaching the in-memory fallback.
---
 marEx/helper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marEx/helper.py b/marEx/helper.py
index 87ea372..3f788ed 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -699,8 +699,8 @@ def checkpoint_to_zarr(
 
             logger.debug(f"Attempting Zarr checkpoint: {zarr_path}")
             # Check if time dimension has irregular chunks that need fixing
-            if timedim in data.dims and timedim in data.chunks:
-                time_chunks = data.chunks[timedim]
+            if timedim in data.dims and timedim in data.chunksizes:
+                time_chunks = data.chunksizes[timedim]
                 if len(time_chunks) > 1 and len(set(time_chunks)) > 1:
                     # Chunks are irregular - need to fix for Zarr
                     first_chunk = time_chunks[0]
@@ -744,8 +744,7 @@ def checkpoint_to_zarr(
                 # Clean up failed zarr attempt
                 if zarr_path.exists():
                     shutil.rmtree(zarr_path)
-            else:
-                raise
+            raise  # Fall back to in-memory persist
 
     except Exception as e:
         logger.error(f"Failed to checkpoint '{name}' to disk: {e}")
-- 
2.43.0


From 6e90ab3a2dd1f78e973c369b82c5f967d7c92a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:50 +0000
Subject: [PATCH 11/31] fix: load a checkpoint before its file is cleaned up

checkpoint_to_zarr(cleanup=True) returned a lazy view of the deleted store, which
reads as fill values.
---
 marEx/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marEx/helper.py b/marEx/helper.py
index 3f788ed..0380e60 100644
--- a/marEx/helper.py
+++ b/marEx/helper.py
@@ -735,6 +735,10 @@ def checkpoint_to_zarr(
                     ds_temp = xr.open_zarr(zarr_path, chunks={})
                     reloaded = ds_temp[list(ds_temp.data_vars)[0]]
 
+            if cleanup:
+                # The file is about to be deleted: its contents need to be in memory by then
+                reloaded = reloaded.load().chunk(data.chunksizes)
+
             logger.info(f"Checkpoint '{name}' saved via Zarr: {zarr_path}")
             return reloaded
 
-- 
2.43.0


From a80dd2b3b611a8241f8f38689b77b337a1df2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:03 +0000
Subject: [PATCH 12/31] fix: centroid partitioning on unstructured grids

The labels of all cells were returned where those of the child cells are expected,
so every merger failed; and the unused (padding) parent centroids took part in the
search for the closest parent, also for the fallback of nearest-neighbour partitioning.
---
 marEx/track.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 181f17e..ec7d06c 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4088,7 +4088,7 @@ class tracker:
                         new_labels_uint = partition_nn_unstructured_optimised(
                             child_mask.copy(),
                             parent_masks_uint.copy(),
-                            parent_centroids,
+                            parent_centroids[:n_parents],
                             neighbours_int.copy(),
                             lat,
                             lon,
@@ -4102,7 +4102,9 @@ class tracker:
 
                     else:
                         # Use centroid-based partitioning
-                        new_labels = partition_centroid_unstructured(child_mask, parent_centroids, child_ids, lat, lon)
+                        new_labels = partition_centroid_unstructured(
+                            child_mask, parent_centroids[:n_parents], child_ids, lat, lon
+                        )
 
                     # Update slice data for subsequent merging in process_chunk
                     data_t[child_mask] = new_labels
@@ -5454,7 +5456,7 @@ def partition_centroid_unstructured(
 
         new_labels[i] = child_ids[closest_parent]
 
-    return new_labels
+    return new_labels[child_mask]
 
 
 @njit(fastmath=True, parallel=True)
-- 
2.43.0


From 9757bea6c604d7aba934ff8db3d56180cbf79d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:03 +0000
Subject: [PATCH 13/31] fix: revisit children that overlap by exactly the
 threshold

The overlap threshold is inclusive everywhere else, but children overlapping a newly
created object by exactly overlap_threshold were not considered for merging.
---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index ec7d06c..dbba6fe 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4138,7 +4138,7 @@ class tracker:
                                 min_area = min(area_0, area_1)
                                 overlap_area = area[parent_mask & potential_child_mask].sum()
 
-                                if overlap_area / min_area > self.overlap_threshold:
+                                if overlap_area / min_area >= self.overlap_threshold:
                                     new_merging_list.append(potential_child)
 
                     # Add newly found merging objects to processing queue
-- 
2.43.0


From b9bd84a0818be66dca41fe7d199618b12c635cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:03 +0000
Subject: [PATCH 14/31] fix: reserve enough temporary IDs per timestep for
 every possible merger

A timestep creating more new objects than max_merges * timechunks (e.g. a merger of
three parents with single-timestep chunks) reused the IDs of the following timestep.
---
 marEx/track.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index dbba6fe..3f5a8cc 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4463,10 +4463,9 @@ class tracker:
             )
 
             # Calculate ID offsets for each timestep to ensure unique IDs
-            next_id_offsets = np.arange(n_time, dtype=np.int64) * max_merges * self.timechunks + global_id_counter
             # N.B.: We also need to account for possibility of newly-split objects subsequently creating
             #          more than max_merges by the end of the iteration through the chunk
-            # !!! This is likely the root cause of any errors such as "ID needs to be contiguous/continuous/full/unrepeated"
+            next_id_offsets = np.arange(n_time, dtype=np.int64) * MAX_MERGES * MAX_PARENTS + global_id_counter
             next_id_offsets_da = xr.DataArray(
                 next_id_offsets,
                 dims=[self.timedim],
-- 
2.43.0


From 2295ddcfea9ac2d35ef9cd4e1e1b9daedebcf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:43 +0000
Subject: [PATCH 15/31] fix: merge objects in time chunks holding a single
 timestep on unstructured grids

Time chunks of length one (also as the remainder of the last chunk) either failed or
silently lost mergers, because the current timestep was taken from the second entry
of the shifted field.
---
 marEx/track.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 3f5a8cc..8122e96 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3854,6 +3854,7 @@ class tracker:
 
         def process_chunk(
             chunk_data_m1_full: NDArray[np.int32],
+            chunk_data_full: NDArray[np.int32],
             chunk_data_p1_full: NDArray[np.int32],
             merging_objects: NDArray[np.int64],
             next_id_start: NDArray[np.int64],
@@ -3881,7 +3882,9 @@ class tracker:
             Parameters
             ----------
             chunk_data_m1_full : numpy.ndarray
-                Data from previous timestep (t-1) and current timestep (t)
+                Data from previous timestep (t-1)
+            chunk_data_full : numpy.ndarray
+                Data from current timestep (t)
             chunk_data_p1_full : numpy.ndarray
                 Data from next timestep (t+1)
             merging_objects : (n_time, max_merges) numpy.ndarray
@@ -3905,20 +3908,17 @@ class tracker:
             #    N.B.: This is a weird artefact/choice of xarray apply_ufunc broadcasting...
             #           (i.e. 'nv' dimension gets injected into all the other arrays!)
 
-            chunk_data_m1 = chunk_data_m1_full.squeeze()[0].astype(np.int32).copy()
-            chunk_data = chunk_data_m1_full.squeeze()[1].astype(np.int32).copy()
-            del chunk_data_m1_full  # Free memory immediately
-            chunk_data_p1 = chunk_data_p1_full.astype(np.int32).copy()
-            # Remove any singleton dimensions except time and space
-            while chunk_data_p1.ndim > 2:
-                chunk_data_p1 = chunk_data_p1.squeeze(axis=-1)
-            del chunk_data_p1_full
-
             # Extract and prepare input arrays
             lat = lat.squeeze().astype(np.float32)
             lon = lon.squeeze().astype(np.float32)
             area = area.squeeze().astype(np.float32)
-            next_id_start = next_id_start.squeeze()
+            next_id_start = next_id_start.reshape(-1)
+
+            # Remove any singleton dimensions except time and space
+            chunk_data_m1 = chunk_data_m1_full.reshape(-1, lat.shape[0])[0].astype(np.int32).copy()
+            chunk_data = chunk_data_full.reshape(-1, lat.shape[0])[0].astype(np.int32).copy()
+            chunk_data_p1 = chunk_data_p1_full.reshape(-1, lat.shape[0]).astype(np.int32).copy()
+            del chunk_data_m1_full, chunk_data_full, chunk_data_p1_full  # Free memory immediately
 
             # Handle neighbours_int with correct dimensions (nv, ncells)
             neighbours_int = neighbours_int.squeeze()
@@ -3926,9 +3926,7 @@ class tracker:
                 neighbours_int = neighbours_int.T
 
             # Handle multiple merging objects - ensure proper dimensionality
-            merging_objects = merging_objects.squeeze()
-            if merging_objects.ndim == 1:
-                merging_objects = merging_objects[:, None]  # Add dimension for max_merges
+            merging_objects = merging_objects.reshape(chunk_data_p1.shape[0], -1)
 
             # Pre-convert lat/lon to Cartesian coordinates for efficiency
             x = (np.cos(np.radians(lat)) * np.cos(np.radians(lon))).astype(np.float32)
@@ -4486,6 +4484,7 @@ class tracker:
             results = xr.apply_ufunc(
                 process_chunk,
                 object_id_field_unique_m1,
+                object_id_field_unique.chunk({self.timedim: self.timechunks}),
                 object_id_field_unique_p1,
                 merging_objects_da,
                 next_id_offsets_da,
@@ -4494,6 +4493,7 @@ class tracker:
                 self.cell_area,
                 neighbours_int,
                 input_core_dims=[
+                    [self.xdim],
                     [self.xdim],
                     [self.xdim],
                     ["merges"],
-- 
2.43.0


From e3ce8d693b5db34fb1fbd00f4dee25e11581b3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:02 +0000
Subject: [PATCH 16/31] fix: allow hole filling that reaches around a small
 periodic grid

The periodic padding is 4 * R_fill wide and could exceed the number of
longitudes, which padding by slices cannot represent.
---
 marEx/track.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 8122e96..adb1f9c 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1643,7 +1643,13 @@ class tracker:
                 else:
                     # Pad data to avoid edge effects
                     # N.B.: Only longitude is periodic -- latitude must not wrap from pole to pole
-                    data_bin = data_bin.pad({self.ydim: pad_width}, mode="edge").pad({self.xdim: pad_width}, mode=mode)
+                    data_bin = data_bin.pad({self.ydim: pad_width}, mode="edge")
+                    if self.regional_mode:
+                        data_bin = data_bin.pad({self.xdim: pad_width}, mode="edge")
+                    else:  # Periodic continuation, which may be wider than the grid itself
+                        nx = data_bin.sizes[self.xdim]
+                        x_indices = np.arange(-pad_width, nx + pad_width) % nx
+                        data_bin = data_bin.isel({self.xdim: x_indices}).chunk({self.xdim: -1})
                     data_coords = data_bin.coords
                     data_dims = data_bin.dims
 
-- 
2.43.0


From c0b11f6c74c9c0c728b5a96409d39c29d3f922ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:46 +0000
Subject: [PATCH 17/31] fix: keep cell areas in a single spatial chunk like the
 data and mask

---
 marEx/track.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index adb1f9c..2ae1062 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -476,6 +476,8 @@ class tracker:
                 logger.info("Using provided cell_areas for structured grid")
 
         # Store cell_areas for both grid types
+        if cell_areas.chunks is not None:  # Spatial dimensions must be in single chunks (as for data_bin & mask)
+            cell_areas = cell_areas.chunk({dim: -1 for dim in cell_areas.dims})
         self.cell_area = cell_areas.astype(np.float32).persist()
         if self.unstructured_grid:
             # Remove coordinate variables for unstructured
-- 
2.43.0


From b792098a48a709f8711910e0cb7008cbb5511722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:44 +0000
Subject: [PATCH 18/31] fix: never overwrite the object field that dask may
 still need for recomputation

---
 marEx/track.py | 39 ++++++++++-----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 2ae1062..34738e7 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1050,8 +1050,9 @@ class tracker:
         self.scratch_dir = temp_dir
 
         # Clear any existing temporary storage
-        if os.path.exists(f"{self.scratch_dir}/marEx_temp_field.zarr/"):
-            shutil.rmtree(f"{self.scratch_dir}/marEx_temp_field.zarr/")
+        for suffix in ["", "_0", "_1"]:
+            if os.path.exists(f"{self.scratch_dir}/marEx_temp_field{suffix}.zarr/"):
+                shutil.rmtree(f"{self.scratch_dir}/marEx_temp_field{suffix}.zarr/")
 
         # Remove coordinate variables to avoid memory issues
         self.data_bin = self.data_bin.drop_vars({self.ycoord, self.xcoord})
@@ -4301,12 +4302,9 @@ class tracker:
             if not bool(has_merge.any().compute().item()):
                 return object_id_field
 
-            zarr_path = f"{self.scratch_dir}/marEx_temp_field.zarr/"
-
-            # Initialise zarr store if needed
-            if not os.path.exists(zarr_path):
-                object_id_field.name = "temp"
-                object_id_field.to_zarr(zarr_path, mode="w")
+            # Write to a different store than the one holding the current field: Everything computed in this iteration
+            #    derives from the current field, and dask may need to recompute it if a worker is lost
+            zarr_path = f"{self.scratch_dir}/marEx_temp_field_{iteration % 2}.zarr/"
 
             def update_time_chunk(ds_chunk: xr.Dataset, lookup_dict: Dict[int, int]) -> xr.DataArray:
                 """Process a single chunk with optimised memory usage."""
@@ -4320,10 +4318,6 @@ class tracker:
                 chunk_updates = ds_chunk["updates"]
                 chunk_update_ids = ds_chunk["update_ids"]
 
-                # Get zarr region indices
-                time_idx_start = int(ds_chunk["time_indices"].values[0])
-                time_idx_end = int(ds_chunk["time_indices"].values[-1]) + 1
-
                 updated_chunk = chunk_data.copy()
 
                 # Process each time slice in the chunk
@@ -4351,19 +4345,7 @@ class tracker:
                     # Store updated slice
                     updated_chunk[t] = result_slice
 
-                # Write the updated chunk directly to zarr
-                updated_chunk.name = "temp"
-                updated_chunk.to_zarr(
-                    zarr_path,
-                    region={self.timedim: slice(time_idx_start, time_idx_end)},
-                )
-
-                return chunk_data  # Return original data for dask graph consistency
-
-            # Create time indices for slicing
-            time_coords = object_id_field[self.timecoord].values
-            time_indices = np.arange(len(time_coords), dtype=np.int32)
-            time_index_da = xr.DataArray(time_indices, dims=[self.timedim], coords={self.timecoord: time_coords})
+                return updated_chunk
 
             # Create dataset with all necessary components
             ds = xr.Dataset(
@@ -4371,7 +4353,6 @@ class tracker:
                     "object_field": object_id_field,
                     "updates": updates_array,
                     "update_ids": updates_ids,
-                    "time_indices": time_index_da,
                     "has_merge": has_merge,
                 }
             ).chunk({self.timedim: self.timechunks})
@@ -4384,9 +4365,9 @@ class tracker:
                 template=object_id_field,
             )
 
-            # Force computation to ensure all writes complete
-            result = result.persist()
-            wait(result)
+            # Write the updated field
+            result.name = "temp"
+            result.to_zarr(zarr_path, mode="w")
 
             # Release resources
             del result, ds, object_id_field
-- 
2.43.0


From bbd2907ef672233acfb4c0c2f30613a5d474aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:38 +0000
Subject: [PATCH 19/31] fix: save preprocessing checkpoints of data with uneven
 time chunks

---
 marEx/track.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index 34738e7..41622ad 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1340,6 +1340,8 @@ class tracker:
                 if os.path.exists(stats_path):
                     os.remove(stats_path)
                 data_bin_filtered.name = "data_bin_preproc"
+                # Zarr requires uniform chunks, but filling time gaps merges chunks that are shorter than T_fill
+                data_bin_filtered = data_bin_filtered.chunk({self.timedim: self.timechunks})
                 data_bin_filtered.to_zarr(
                     f"{self.scratch_dir}/marEx_checkpoint_proc_bin.zarr", mode="w"
                 )  # N.B.: This needs to be done without .persist() due to dask to_zarr tuple bug...
-- 
2.43.0


From 39e0cb72c6add0868fe2cf35d1eb065b63738fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:56 +0000
Subject: [PATCH 20/31] fix: exact global percentiles on small unstructured
 grids

---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index a0a1d07..eeb4aa2 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2761,7 +2761,7 @@ def _identify_extremes_constant(
         if "y" in dimensions:
             rechunk_size = "auto"
         else:
-            rechunk_size = 100 * int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100)
+            rechunk_size = 100 * max(1, int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100))
         # N.B.: If this rechunk_size is too small, then dask will be overwhelmed by the number of tasks
         chunk_dict = {dimensions[dim]: rechunk_size for dim in ["x", "y"] if dim in dimensions}
         chunk_dict[dimensions["time"]] = -1
-- 
2.43.0


From a96e810cdd0a9847d07517e02c8e54e8c93031d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:56 +0000
Subject: [PATCH 21/31] fix: day-of-year thresholds without temporal window
 (window_days_hobday=1)

---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index eeb4aa2..6c2e8e5 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2365,7 +2365,7 @@ def _rolling_histogram_quantile(
 
     # Pad histogram with wrap mode for day-of-year cycling
     pad_size = window_days_hobday // 2
-    hist_pad = np.concatenate([hist_chunk[-pad_size:], hist_chunk, hist_chunk[:pad_size]], axis=0)
+    hist_pad = np.concatenate([hist_chunk[n_doy - pad_size :], hist_chunk, hist_chunk[:pad_size]], axis=0)
 
     # Apply rolling sum using stride tricks FTW
     windowed_view = sliding_window_view(hist_pad, window_days_hobday, axis=0)
-- 
2.43.0


From f7c91ea5148f3650b8d6b9bb4bb8767105040868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:30 +0000
Subject: [PATCH 22/31] fix: draw each animation frame on its own figure

make_frame used pyplot's current figure (plt.axes, plt.colorbar). Frames are
dask tasks, and with threads (dask's default scheduler) another frame's figure
may be the current one, so maps and colour bars ended up in other frames.
---
 marEx/plotX/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index e8d7bb3..32aa70e 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -621,8 +621,9 @@ def make_frame(
     plt.rc("text", usetex=False)
     plt.rc("font", family="serif")
 
+    # Draw on this frame's own figure (not pyplot's current one): frames may be drawn in concurrent threads
     fig = plt.figure(figsize=(7, 5))
-    ax = plt.axes(projection=ccrs.Robinson())
+    ax = fig.add_subplot(projection=ccrs.Robinson())
 
     data_slice_np = data_slice.values
 
@@ -759,7 +760,7 @@ def make_frame(
             pass
 
     if plot_params.get("show_colorbar"):
-        cb = plt.colorbar(im, shrink=0.6, ax=ax, extend=plot_params.get("extend", "both"))
+        cb = fig.colorbar(im, shrink=0.6, ax=ax, extend=plot_params.get("extend", "both"))
         if plot_params.get("var_units"):
             cb.ax.set_ylabel(plot_params["var_units"], fontsize=10)
         cb.ax.tick_params(labelsize=10)
-- 
2.43.0


From 6d9d290630c0ed1bbcaf0098b6ded5d757d8c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:30 +0000
Subject: [PATCH 23/31] fix: animate triangulated meshes

make_frame passed shading="auto", which only pcolormesh knows, to tripcolor, so
every animation of a mesh with a triangulation file raised a ValueError.
---
 marEx/plotX/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index 32aa70e..045a757 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -666,6 +666,7 @@ def make_frame(
             # Use triangulation
             triang = _load_triangulation(grid_info["tgrid_path"])
             data_masked = np.ma.masked_invalid(data_slice_np)
+            plot_kwargs.pop("shading")  # 'auto' is not a shading of tripcolor
             im = ax.tripcolor(triang, data_masked, **plot_kwargs)
     else:
         # Regular grid plotting
-- 
2.43.0


From 2b1cf15f521721187260b596350b6570498cacc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:30 +0000
Subject: [PATCH 24/31] fix: animate data with custom dimension names

make_frame read data_slice.lat and .lon, whatever names the plotter was given, so
animations of data with other names failed (single plots of them work).
---
 marEx/plotX/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/marEx/plotX/base.py b/marEx/plotX/base.py
index 045a757..4e3db20 100644
--- a/marEx/plotX/base.py
+++ b/marEx/plotX/base.py
@@ -464,6 +464,8 @@ class PlotterBase:
             "extend": extend,
             "show_colorbar": config.show_colorbar,
             "grid_labels": config.grid_labels,
+            "x_dim": self.dimensions.get("x", "lon"),
+            "y_dim": self.dimensions.get("y", "lat"),
         }
 
         # Set up grid information if needed
@@ -670,8 +672,8 @@ def make_frame(
             im = ax.tripcolor(triang, data_masked, **plot_kwargs)
     else:
         # Regular grid plotting
-        lat = data_slice.lat.values
-        lon = data_slice.lon.values
+        lat = data_slice[plot_params.get("y_dim", "lat")].values
+        lon = data_slice[plot_params.get("x_dim", "lon")].values
         im = ax.pcolormesh(lon, lat, data_slice_np, **plot_kwargs)
 
     time_str = plot_params.get("time_str", f"Frame {time_ind}")
@@ -693,8 +695,8 @@ def make_frame(
                     pass
                 else:
                     # Regular grid plotting - use lat/lon coordinates
-                    lat = data_slice.lat.values
-                    lon = data_slice.lon.values
+                    lat = data_slice[plot_params.get("y_dim", "lat")].values
+                    lon = data_slice[plot_params.get("x_dim", "lon")].values
 
                     # Draw contours around object boundaries (treating all IDs > 0 the same)
                     ax.contour(
-- 
2.43.0


From 9a9bc7a6b7f6409817d415c933456e828df1e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:22 +0000
Subject: [PATCH 25/31] fix: std_normalise for data without a day 366

The 30-day smoothing cut 366 days out of the padded days of the year, so data
without a leap year kept 32 padded days and failed with "cannot reindex".
---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 6c2e8e5..1e30958 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2183,7 +2183,7 @@ def _compute_anomaly_detrended(
 
         # Calculate 30-day rolling standard deviation with annual wrapped padding
         std_day_wrap = std_day.pad(dayofyear=16, mode="wrap")
-        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(dayofyear=slice(16, 366 + 16))
+        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(dayofyear=slice(16, std_day.sizes["dayofyear"] + 16))
 
         # Divide anomalies by rolling standard deviation
         # Replace any zeros or extremely small values with NaN to avoid division warnings
-- 
2.43.0


From 695f31f44fa33065271e55883bc899cb5eec3c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:53 +0000
Subject: [PATCH 26/31] fix: track long records of unstructured data whose
 objects are concentrated in few times

The number of IDs per time was estimated from the mean number of objects, and tracking failed with a broadcasting error
when one time holds more than 100 times the mean.
---
 marEx/track.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 41622ad..6f3f0ac 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2711,18 +2711,30 @@ class tracker:
         time_index_map : dict
             Dictionary mapping object IDs to time indices
         """
-        # Estimate max objects per time
-        est_objects_per_time_max = int(max_objects / da[self.timedim].shape[0] * 100)
+        # Maximum number of distinct IDs at any one time (N.B.: Objects may be concentrated within only a few times)
+        input_dims = [self.xdim] if self.unstructured_grid else [self.ydim, self.xdim]
+        objects_per_time_max = int(
+            xr.apply_ufunc(
+                lambda x: np.unique(x).size,
+                da,
+                input_core_dims=[input_dims],
+                dask="parallelized",
+                vectorize=True,
+                output_dtypes=[np.int32],
+            )
+            .max()
+            .compute()
+            .item()
+        )
 
         def unique_pad(x: NDArray[np.int32]) -> NDArray[np.int32]:
             """Extract unique values and pad to fixed size."""
             uniq = np.unique(x)
-            result = np.zeros(est_objects_per_time_max, dtype=x.dtype)  # Pad output to maximum size
+            result = np.zeros(objects_per_time_max, dtype=x.dtype)  # Pad output to maximum size
             result[: len(uniq)] = uniq
             return result
 
         # Get unique IDs for each time slice
-        input_dims = [self.xdim] if self.unstructured_grid else [self.ydim, self.xdim]
         unique_ids_by_time = xr.apply_ufunc(
             unique_pad,
             da,
@@ -2730,7 +2742,7 @@ class tracker:
             output_core_dims=[["unique_values"]],
             dask="parallelized",
             vectorize=True,
-            dask_gufunc_kwargs={"output_sizes": {"unique_values": est_objects_per_time_max}},
+            dask_gufunc_kwargs={"output_sizes": {"unique_values": objects_per_time_max}},
         )
 
         # Set up IDs to search for
-- 
2.43.0


From df02dfdbe4aa82e67f99667e9e229247df6aaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:53 +0000
Subject: [PATCH 27/31] fix: count objects of exactly the minimum area as
 accepted

They are kept by the filter, but were left out of accepted_area_fraction.
---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 6f3f0ac..48c4dd3 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1358,7 +1358,7 @@ class tracker:
         object_areas = object_areas.compute()
         total_area_IDed = float(object_areas.sum().item())
 
-        accepted_area = float(object_areas.where(object_areas > area_threshold, drop=True).sum().item())
+        accepted_area = float(object_areas.where(object_areas >= area_threshold, drop=True).sum().item())
         accepted_area_fraction = accepted_area / total_area_IDed
 
         total_hobday_area = float(raw_area.sum().compute().item())
-- 
2.43.0


From 5645079d816423732ed73e434a660766708c2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 28/31] fix: centroids between the last and the first longitude
 of a periodic grid

They were moved onto the last longitude.
---
 marEx/track.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 48c4dd3..ef62554 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3302,7 +3302,14 @@ class tracker:
 
                         # Convert pixel indices to coordinate values
                         centroid_lat = np.interp(centroid_y_pix, np.arange(len(lat_vals)), lat_vals)
-                        centroid_lon = np.interp(centroid_x_pix, np.arange(len(lon_vals)), lon_vals)
+                        if not regional_mode and centroid_x_pix > nx - 1:
+                            # Centroid lies between the last and the first column
+                            lon_first = lon_vals[0] + np.sign(lon_vals[-1] - lon_vals[0]) * 360.0
+                            centroid_lon = lon_vals[-1] + (centroid_x_pix - (nx - 1)) * (lon_first - lon_vals[-1])
+                            if centroid_lon > (360.0 if lon_vals.min() >= 0 else 180.0):
+                                centroid_lon -= 360.0
+                        else:
+                            centroid_lon = np.interp(centroid_x_pix, np.arange(len(lon_vals)), lon_vals)
 
                         centroid_lats[id_idx] = centroid_lat
                         centroid_lons[id_idx] = centroid_lon
-- 
2.43.0


From fdc9f80eef759aa46b17e6a3a3323e4bb7f7eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 29/31] fix: accept masks and cell areas with coordinates in
 radians

Only the coordinates of the data were converted to degrees, so that they no longer aligned.
---
 marEx/track.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index ef62554..bf75e92 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -397,6 +397,10 @@ class tracker:
         self.lon_init = data_bin[self.xcoord].persist()
         self._unify_coordinates()
         data_bin = self.data_bin  # Coordinates now in degrees
+        if self.coordinate_units == "radians":  # Keep the mask & cell areas aligned with the data
+            mask = self._coordinates_to_degrees(mask)
+            if cell_areas is not None:
+                cell_areas = self._coordinates_to_degrees(cell_areas)
 
         self.mask = mask
         self.R_fill = int(R_fill)
@@ -976,13 +980,12 @@ class tracker:
 
         # Convert lat & lon to degrees
         if self.coordinate_units == "radians":
-            # N.B.: Do not modify the coordinates of the user's input in-place
-            self.data_bin = self.data_bin.assign_coords(
-                {
-                    self.xcoord: self.data_bin[self.xcoord] * 180.0 / np.pi,
-                    self.ycoord: self.data_bin[self.ycoord] * 180.0 / np.pi,
-                }
-            )
+            self.data_bin = self._coordinates_to_degrees(self.data_bin)
+
+    def _coordinates_to_degrees(self, da: xr.DataArray) -> xr.DataArray:
+        """Convert the lat & lon coordinates (if any) of an input from radians to degrees."""
+        # N.B.: Do not modify the coordinates of the user's input in-place
+        return da.assign_coords({coord: da[coord] * 180.0 / np.pi for coord in (self.xcoord, self.ycoord) if coord in da.coords})
 
     def _remap_coordinates(self, events_ds: xr.Dataset) -> xr.Dataset:
         """Remap coordinates to original lat/lon values after processing.
-- 
2.43.0


From 1934d436fb0e00d095f5b4acfdafa7a179b44e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:28 +0000
Subject: [PATCH 30/31] fix: accept in-memory neighbours on unstructured grids

preprocess_data returns neighbours as an in-memory array, but the tracker
called .compute() on its data and failed with an AttributeError.
---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index bf75e92..1caf04e 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1108,7 +1108,7 @@ class tracker:
         """Build sparse matrix for efficient dilation operations on unstructured grid."""
         # Create row and column indices for sparse matrix
         row_indices = jnp.repeat(jnp.arange(self.neighbours_int.shape[1]), 3)
-        col_indices = self.neighbours_int.data.compute().T.flatten()
+        col_indices = self.neighbours_int.values.T.flatten()  # may be in memory or dask-backed
 
         # Filter out negative values (invalid connections)
         valid_mask = col_indices >= 0
-- 
2.43.0


From 8b1f7b753db9893b66b54caca189343d04287bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 31/31] fix: rechunk neighbours that come in several chunks

The tracker warns that it rechunks them to a single chunk, but did not, and
then failed in apply_ufunc.
---
 marEx/track.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 1caf04e..3deb3fd 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -916,8 +916,8 @@ class tracker:
         # Apply rechunking if needed
         if neighbours_rechunk_needed:
             logger.info(f"Rechunking neighbours spatial dimensions: {neighbours_rechunk_dims}")
-            # Note: We don't store the rechunked neighbours directly since it's a parameter
-            # The caller should handle this if needed
+            # Note: We don't store the rechunked neighbours directly since it's a parameter:
+            # The caller handles this
 
         if cell_areas_rechunk_needed:
             logger.info(f"Rechunking cell_areas spatial dimensions: {cell_areas_rechunk_dims}")
@@ -1068,6 +1068,8 @@ class tracker:
 
         # Validate spatial chunking for unstructured grid data
         self._validate_unstructured_chunking(neighbours, cell_areas)
+        if neighbours.chunks is not None:  # Spatial dimensions must be in single chunks
+            neighbours = neighbours.chunk({dim: -1 for dim in neighbours.dims})
 
         # Initialise dilation array for unstructured grid
         self.neighbours_int = neighbours.astype(np.int32) - 1  # Convert to 0-based indexing
-- 
2.43.0

