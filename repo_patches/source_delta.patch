From 139a6a4a67894c8144255a374e140b8895507bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:49 +0000
Subject: [PATCH 01/52] fix: convert product time fields to int before building
 a datetime

The datetime constructor does not accept the zero-dimensional arrays that
xarray returns for the parts of product_time. Opening a file without an
explicit ellipsoid revision therefore failed with a TypeError.
---
 glmtools/io/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ac65fe6..ce1988b 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -552,8 +552,8 @@ class GLMDataset(OneToManyTraversal):
         if ellipse_rev < 0:
             log.info("Inferring lightning ellipsoid from GLM product time")
             pt = self.dataset.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
+            date = datetime(int(pt.year), int(pt.month), int(pt.day),
+                            int(pt.hour), int(pt.minute), int(pt.second))
             ellipse_rev = ltg_ellpse_rev(date)
         log.info("Using lightning ellipsoid rev {0}".format(ellipse_rev))
 
-- 
2.43.0


From 5c9667a6679bd72e43178d99a67ae2afb8928dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:25 +0000
Subject: [PATCH 02/52] fix: allow subset_flashes with the event position check
 switched off

The flash IDs with good events are only known when check_event_xy is True,
so intersect with them only in that case instead of raising
UnboundLocalError.
---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ce1988b..6d3d57c 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -528,7 +528,7 @@ class GLMDataset(OneToManyTraversal):
             # log.debug("Subsetting bad events with override ranges {0}".format(
                 # check_event_kw))
             good_event_flash_ids = self._check_event_xy(**check_event_kw)
-        flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
+            flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
         return self.get_flashes(flash_ids)
 
     def get_flashes(self, flash_ids):
-- 
2.43.0


From 52d3a7cd1c5e4a0ae4f5fbd4c5b714d963dd52d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:25 +0000
Subject: [PATCH 03/52] fix: call the existing ellipsoid revision lookup in
 ltg_ellps_radii

The function called ltg_ellps_rev, which does not exist, and so always
raised NameError.
---
 glmtools/io/lightning_ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/lightning_ellipse.py b/glmtools/io/lightning_ellipse.py
index fa0a469..1b7aa20 100644
--- a/glmtools/io/lightning_ellipse.py
+++ b/glmtools/io/lightning_ellipse.py
@@ -62,7 +62,7 @@ def ltg_ellps_radii(date):
     Returns: re_ltg_ellps, rp_ltg_ellps (meters): equatorial and polar radii
         of the lightning ellipsoid, respectively.
     """
-    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellps_rev(date)]
+    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellpse_rev(date)]
     return re_ltg_ellps, rp_ltg_ellps
 
 def ltg_ellps_lon_lat_to_fixed_grid(lon, lat, sat_lon, ellipse_rev,
-- 
2.43.0


From bde549d58532bbb02c389bfb7e86aea8dbf192db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:25 +0000
Subject: [PATCH 04/52] fix: do not return children of requested IDs that do
 not exist

reduce_to_entities ignores requested IDs that are not in the dataset, but
still collected the children that name such an ID as their parent. Descend
from the entities that were found.
---
 glmtools/io/traversal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index 6c0e0e3..e853155 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -237,7 +237,7 @@ class OneToManyTraversal(object):
                 e_iter = (e_group[eid] for eid in entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
-                last_entity_ids = entity_ids # == dataset[e_var].data
+                last_entity_ids = [eid for eid in entity_ids if eid in e_group]
                 if len(e_idx) == 0:
                     # xarray doesn't accept an empty array as a valid index
                     e_idx = slice(0, 0)
-- 
2.43.0


From cd5d974925fcd83160c27a4e0e21fbaa90af94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:25 +0000
Subject: [PATCH 05/52] fix: traverse datasets in which a level has no records

No groupby is made for an empty dimension, so every method that looked up
its groups raised AttributeError. Treat a missing groupby as having no
groups, which lets files without lightning be opened.
---
 glmtools/io/traversal.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index e853155..f2c48fd 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -1,6 +1,12 @@
 import collections, itertools
 import numpy as np
 
+def _group_indices(grouper):
+    """ Indices by group for a groupby, or no groups at all if there was no
+        data from which to make a groupby.
+    """
+    return {} if grouper is None else grouper.groups
+
 class OneToManyTraversal(object):
     def __init__(self, dataset, entity_id_vars, parent_id_vars):
         """
@@ -124,7 +130,7 @@ class OneToManyTraversal(object):
         all_counts = []
         for e_var, p_var in self._descend():
             if count_next == True:
-                grouper = self.parent_groups[p_var].groups
+                grouper = _group_indices(self.parent_groups[p_var])
                 count = [len(grouper[eid]) if (eid in grouper) else 0
                          for eid in last_entity_ids]
                 last_entity_ids = self.dataset[e_var].data
@@ -213,7 +219,7 @@ class OneToManyTraversal(object):
         prune = False
         for e_var, p_var in self._descend():
             if prune == True:
-                p_group = self.parent_groups[p_var].groups
+                p_group = _group_indices(self.parent_groups[p_var])
                 e_iter = (p_group[eid] for eid in last_entity_ids
                           if eid in p_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -233,7 +239,7 @@ class OneToManyTraversal(object):
                 # the need to index along two dimensions at once the first time
                 # through.
                 prune = True
-                e_group = self.entity_groups[e_var].groups
+                e_group = _group_indices(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -257,7 +263,7 @@ class OneToManyTraversal(object):
         # child at the level of entity_id_var
         for e_var, p_var in self._ascend():
             if (prune == True):
-                e_group = self.entity_groups[e_var].groups
+                e_group = _group_indices(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in last_entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -332,11 +338,11 @@ class OneToManyTraversal(object):
             # e.g., group_parent_flash_id
             # Check the entity ID variable and its corresponding parent data for the same set of IDs
             parent_grouper = trav.parent_groups[parent_var]
-            parent_ids = set(parent_grouper.groups.keys())
+            parent_ids = set(_group_indices(parent_grouper).keys())
 
             # e.g., flash_id
             parent_entity_grouper = trav.entity_groups[id_entity_for_parent_var]
-            parent_entity_ids = set(parent_entity_grouper.groups.keys())
+            parent_entity_ids = set(_group_indices(parent_entity_grouper).keys())
 
             # Ensure no replication of IDs at the parent level. There should
             # only be on entity ID for each entity.
-- 
2.43.0


From 66f2282be514a2360cf8e7c4dcfc6e2f047f5ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:26 +0000
Subject: [PATCH 06/52] fix: remove groups without events when repairing
 parent-child IDs

Pruning to the valid flashes removes orphans but leaves behind groups that
have no events, and flashes that have only such groups. Ascend from the
remaining events as well so that the repaired tree is self-consistent.
---
 glmtools/io/glm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 6d3d57c..c6eca00 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -216,6 +216,12 @@ class GLMDataset(OneToManyTraversal):
                 unq_fl_id = set(list(dataset.group_parent_flash_id.data))
                 good_fl_id = list(unq_fl_id - flashes_with_no_groups)
                 ds_fixed = test_trav.reduce_to_entities('flash_id', good_fl_id)
+                # Groups without events, and flashes with only such groups, can
+                # only be found by ascending from the remaining events.
+                test_trav = OneToManyTraversal(ds_fixed,
+                                self.entity_ids, self.parent_ids)
+                ds_fixed = test_trav.reduce_to_entities('event_id',
+                                ds_fixed.event_id.data)
                 dataset = ds_fixed
 
         self._filename = filename
-- 
2.43.0


From e240f4174a8927f83de39aa23e8bd23ec0c21f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:00 +0000
Subject: [PATCH 07/52] fix: give positions in the last column their own
 location IDs

The row stride was the truncated number of steps across x_range, so a
position in the last, partial column had the same ID as one in the first
column of the next row.
---
 glmtools/io/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index c6eca00..bc735a8 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -733,7 +733,8 @@ def discretize_2d_location(x, y, scale, x_range, y_range, int_type='uint64'):
     """
     x_offset = x_range[0]
     y_offset = y_range[0]
-    discr_x_max = np.array((x_range[1]-x_offset)/scale, dtype=int_type)
+    # One more than the largest discrete x, so that rows of y do not overlap
+    discr_x_max = np.array((x_range[1]-x_offset)/scale + 1, dtype=int_type)
     discr_y_max = np.array((y_range[1]-y_offset)/scale, dtype=int_type)
     x_discr = ((x - x_offset) / scale).astype(int_type)
     y_discr = ((y - y_offset) / scale).astype(int_type)
-- 
2.43.0


From 5b21cdce56343ef2ccf8d3eb9fde246a7bade96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:46 +0000
Subject: [PATCH 08/52] fix: return an empty event lookup table for a dataset
 without events

get_lutevents raised ValueError in groupby when no events were selected.
---
 glmtools/io/glm.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index bc735a8..444e9ab 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -638,11 +638,6 @@ def get_lutevents(dataset, scale_factor=28e-6, event_dim='number_of_events',
 
     xy_id = discretize_2d_location(event_x, event_y, scale_factor, x_range, y_range)
     dataset['event_parent_lutevent_id'] = xr.DataArray(xy_id, dims=[event_dim,])
-    eventlut_groups = dataset.groupby('event_parent_lutevent_id')
-    flash_id_groupby = dataset.groupby('flash_id')
-    group_id_groupby = dataset.groupby('group_id')
-    n_lutevents = len(eventlut_groups.groups)
-
     # Create a new dimension for the reduced set of events, with their
     # properties aggregated.
     # - Sum: event_energy, flash_area, group_area
@@ -662,7 +657,16 @@ def get_lutevents(dataset, scale_factor=28e-6, event_dim='number_of_events',
                       ('lutevent_min_flash_area', 'f8')
                       ]
 
-    lut_iter = event_lut_iter(eventlut_groups, flash_id_groupby, group_id_groupby,
+    if dataset.dims[event_dim] == 0:
+        # No data, so groupby will fail in xarray > 0.13
+        n_lutevents = 0
+        lut_iter = iter(())
+    else:
+        eventlut_groups = dataset.groupby('event_parent_lutevent_id')
+        flash_id_groupby = dataset.groupby('flash_id')
+        group_id_groupby = dataset.groupby('group_id')
+        n_lutevents = len(eventlut_groups.groups)
+        lut_iter = event_lut_iter(eventlut_groups, flash_id_groupby, group_id_groupby,
                    event_x, event_y, event_energy, product_time,
                    ev_flash_id, ev_group_id, flash_area, group_area)
     event_lut = np.fromiter(lut_iter, dtype=eventlut_dtype, count=n_lutevents)
-- 
2.43.0


From 8cf6676218b4dc4399b8d52af5e1ce218532e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:46 +0000
Subject: [PATCH 09/52] fix: round when recovering stored integers from scaled
 values

Truncating turned e.g. 99.9999 into 99, so that fix_unsigned and
fix_event_locations returned many values one step too low.
---
 glmtools/io/glm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 444e9ab..fcb917e 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -61,7 +61,9 @@ def fix_unsigned(data, is_xarray=True):
     dtype = data.encoding['dtype'].str.replace('i', 'u')
     scale_factor = data.encoding['scale_factor']
     add_offset = data.encoding['add_offset']
-    unscale = ((data - add_offset)/scale_factor).data.astype(dtype).astype('float64')
+    # Round, because truncation would lose one for values just below an integer
+    unscale = np.rint(((data - add_offset)/scale_factor).data)
+    unscale = unscale.astype('int64').astype(dtype).astype('float64')
     fixed = unscale * scale_factor + add_offset
     return fixed
 
@@ -98,8 +100,8 @@ def fix_event_locations(event_lats, event_lons, is_xarray=False):
 
     if is_xarray==True:
         # unscale the data
-        unscale_lat = ((event_lats - lat_fov[0])/scale_factor).data.astype('int32')
-        unscale_lon = ((event_lons - lon_fov[0])/scale_factor).data.astype('int32')
+        unscale_lat = np.rint(((event_lats - lat_fov[0])/scale_factor).data).astype('int32')
+        unscale_lon = np.rint(((event_lons - lon_fov[0])/scale_factor).data).astype('int32')
         event_lats = unscale_lat
         event_lons = unscale_lon
     else: # is NetCDF Variable
-- 
2.43.0


From e1b7c0fca3c7be26866a0a52d13aee2327f958c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:46 +0000
Subject: [PATCH 10/52] fix: do not mask event locations that equal the default
 fill value

Turning off scaling alone leaves masking on, and -32767 is a valid stored
location that netCDF4 masks when the variable has no fill value of its own.
---
 glmtools/io/glm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index fcb917e..cc7133b 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -105,8 +105,10 @@ def fix_event_locations(event_lats, event_lons, is_xarray=False):
         event_lats = unscale_lat
         event_lons = unscale_lon
     else: # is NetCDF Variable
-        event_lons.set_auto_scale(False)
-        event_lats.set_auto_scale(False)
+        # Masking is also off, since otherwise the default netCDF fill value,
+        # which is a valid location here, would be masked.
+        event_lons.set_auto_maskandscale(False)
+        event_lats.set_auto_maskandscale(False)
         event_lons = event_lons[:].astype('int32')
         event_lats = event_lats[:].astype('int32')
 
-- 
2.43.0


From 040d162d2e99c626a14a55dff3586a5e8701fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:46 +0000
Subject: [PATCH 11/52] fix: correct the D0.07 times of files whose tree was
 repaired

The corrected times were copied for every record of the file, which failed
with conflicting sizes when inconsistent records had been removed, and could
assign times to the wrong record when they had been reordered.
---
 glmtools/io/glm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index cc7133b..cfd9e29 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -460,6 +460,8 @@ class GLMDataset(OneToManyTraversal):
         if (in_time & hasattr(self.dataset,'group_frame_time_offset')):
             unmod = xr.open_dataset(filename, mask_and_scale=False, decode_cf=False)
             time_dataset = xr.Dataset()
+            for var in self.entity_ids:
+                time_dataset[var] = getattr(unmod,var)
             for var in vars_to_correct:
                 # Add the _Unsigned attribute
                 da = getattr(unmod,var)
@@ -468,6 +470,13 @@ class GLMDataset(OneToManyTraversal):
 
             decoded = xr.decode_cf(time_dataset)
 
+            # Fixing the parent-child tree may have removed or reordered some
+            # of the records in the file, so match the records by their IDs.
+            for id_var in self.entity_ids:
+                row = dict((eid, i) for i, eid in enumerate(decoded[id_var].data))
+                idx = [row[eid] for eid in self.dataset[id_var].data]
+                decoded = decoded[{decoded[id_var].dims[0]: np.array(idx, dtype=int)}]
+
             # Copy corrected time variables over to the new dataset
             for var in vars_to_correct:
                 self.dataset[var] = decoded[var]
-- 
2.43.0


From 43116869ae09f6d6b5d0d8ea719670e2a862918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:23 +0000
Subject: [PATCH 12/52] fix: accept an explicit bounding box when slicing
 polygons

QuadMeshPolySlicer.slice only set recalc_bbox when bbox was True, so
passing a (xmin, xmax, ymin, ymax) tuple failed with UnboundLocalError.
---
 glmtools/grid/clipping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 41c298c..5391328 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -562,9 +562,8 @@ class QuadMeshPolySlicer(object):
         patch_coll.set_array(np.fromiter((0 for p in polys), dtype=float))
         ax1.add_collection(patch_coll)
         """
-        if bbox == True:
-            recalc_bbox = True
-            # else use the bbox that is specified exactly
+        # If not True, use the bbox that is specified exactly
+        recalc_bbox = (bbox is True)
 
         poly_arr = [np.asarray(p) for p in polys]
         areas = [np.abs(poly_area(p[:,0], p[:,1])) for p in poly_arr]
-- 
2.43.0


From 6693a9f0949fd43fa73458f0f4aa3e6ba8096290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:23 +0000
Subject: [PATCH 13/52] fix: find regular mesh cells when the bounding box
 extends past the mesh

Limits of the box that fell outside the mesh were discarded, so a box
that reached past one side lost most of the cells it overlaps, and a box
larger than the mesh found none.
---
 glmtools/grid/clipping.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 5391328..33ab6ba 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -328,13 +328,13 @@ class QuadMeshSubset(object):
         # print(valid) -> [False, False,  True,  True,  True, False]
         idxx = np.digitize(xlim, self.X_edge1d, right=True) - 1
         idxy = np.digitize(ylim, self.Y_edge1d, right=True) - 1
-        validx = (idxx >= 0) & (idxx < self.N_X_ctr)
-        validy = (idxy >= 0) & (idxy < self.N_Y_ctr)
-        idxx = idxx[validx]
-        idxy = idxy[validy]
+        # The bbox may extend beyond the mesh on any side, so check for overlap
+        # instead of requiring that its limits fall inside the mesh.
+        overlapx = (idxx.max() >= 0) & (idxx.min() < self.N_X_ctr)
+        overlapy = (idxy.max() >= 0) & (idxy.min() < self.N_Y_ctr)
         # print('indices x', idxx, self.X_edge1d.min(), self.X_edge1d.max())
         # print('indices y', idxy, self.Y_edge1d.min(), self.Y_edge1d.max())
-        if (len(idxx) > 0) & (len(idxy) > 0):
+        if overlapx & overlapy:
             xi_min = max(idxx.min() - pad, 0)
             xi_max = min(idxx.max() + 1 + pad, self.N_X_ctr)
             yi_min = max(idxy.min() - pad, 0)
-- 
2.43.0


From bc674c00f3a30c787e96a457a5ee9c12dd875380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:23 +0000
Subject: [PATCH 14/52] fix: find irregular mesh cells larger than the bounding
 box

Only quads with a corner within the x limits and a corner within the y
limits were found, which misses a quad that spans the whole box.
---
 glmtools/grid/clipping.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 33ab6ba..b7dda96 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -376,15 +376,12 @@ class QuadMeshSubset(object):
         # centers are outside of the bbox
         # goodx = (self.X_ctr >= xlim[0]) & (self.X_ctr <= xlim[1])
         # goody = (self.Y_ctr >= ylim[0]) & (self.Y_ctr <= ylim[1])
-        goodx = np.zeros(self.quads.shape[0:2], dtype=bool)
-        goody = np.zeros(self.quads.shape[0:2], dtype=bool)
-
-        for qi in range(4):
-            # loop over the quad corners, keeping quads with at least one corner in bounds
-            goodx |= ((self.quads[:,:,qi,0] >= xlim[0]) &
-                      (self.quads[:,:,qi,0] <= xlim[1]))
-            goody |= ((self.quads[:,:,qi,1] >= ylim[0]) &
-                      (self.quads[:,:,qi,1] <= ylim[1]))
+        # Keep quads whose extent overlaps the bbox. The corners might all be
+        # out of bounds if the quad is larger than the bbox.
+        goodx = ((self.quads[:,:,:,0].max(axis=2) >= xlim[0]) &
+                 (self.quads[:,:,:,0].min(axis=2) <= xlim[1]))
+        goody = ((self.quads[:,:,:,1].max(axis=2) >= ylim[0]) &
+                 (self.quads[:,:,:,1].min(axis=2) <= ylim[1]))
         quad_x_idx, quad_y_idx = np.where((goodx & goody))
         quads = self.quads[quad_x_idx, quad_y_idx, :, :]
         return quads, quad_x_idx, quad_y_idx
-- 
2.43.0


From 904dcf3be55ac0bdb32456701c4bf37cde81bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:23 +0000
Subject: [PATCH 15/52] fix: keep the quad dimension when only one quad is
 nearest

squeeze() also removed the dimension that counts the quads when there is
just one, and polygons could not be sliced by such a mesh.
---
 glmtools/grid/clipping.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index b7dda96..3ae3c77 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -265,9 +265,11 @@ class QuadMeshSubset(object):
         """
         dists, quad_x_idx, quad_y_idx = self.query_tree(x)
         # quads = [q for q in self.gen_polys(quad_x_idx, quad_y_idx)]
-        # Squeeze a leading dimension of 1 on x/y_idx and therefore on quads
-        quads = self.quads[quad_x_idx, quad_y_idx, :, :].squeeze()
-        return quads, quad_x_idx.squeeze(), quad_y_idx.squeeze()
+        # Drop a leading dimension of 1 on x/y_idx and therefore on quads, but
+        # keep the dimension that counts the quads, even if there is only one.
+        quad_x_idx, quad_y_idx = quad_x_idx.reshape(-1), quad_y_idx.reshape(-1)
+        quads = self.quads[quad_x_idx, quad_y_idx, :, :]
+        return quads, quad_x_idx, quad_y_idx
 
     def _quads_in_bbox_regular(self, bbox, pad=2):
         """ Assume a perfectly regular grid, with uniform spacing in x and y
-- 
2.43.0


From b7dd0f09658ebe13b8da576b0fd8bb8a5b7e6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:17 +0000
Subject: [PATCH 16/52] fix: join polygons regardless of their winding
 direction

Overlapping polygons with opposite winding directions cancelled each
other under the nonzero fill rule, leaving holes in the union.
---
 glmtools/grid/clipping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 3ae3c77..ae22da9 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -453,6 +453,10 @@ def join_polys(polys, scale=True):
     if scale:
         polys = scale_to_clipper(polys)
 
+    # With the nonzero fill rule, polygons with opposite winding directions would
+    # cancel where they overlap.
+    polys = [p if pyclipper.Orientation(p) else p[::-1] for p in polys]
+
     results=[]
     pc.AddPaths(polys, pyclipper.PT_SUBJECT, True)
     clip_polys = pc.Execute(pyclipper.CT_UNION, pyclipper.PFT_NONZERO,
-- 
2.43.0


From 7211b5f8cf153b3c2d549bc023f1ceb6c4871363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:06 +0000
Subject: [PATCH 17/52] fix: report positive cell fractions for meshes with
 clockwise cells

The signed area of a mesh cell is negative when its corners run clockwise,
for example when one axis descends. The fraction of the cell covered by a
polygon was then negative too.
---
 glmtools/grid/clipping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index ae22da9..e26d933 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -617,7 +617,8 @@ class QuadMeshPolySlicer(object):
         Calculate the fraction of each original quad covered by the sub-quad.
         """
         sub_quad_areas = np.asarray(frac_areas)*total_area
-        quad_areas = self.mesh.quad_areas[quad_x_idx, quad_y_idx]
+        # Areas are signed according to the winding direction of the mesh
+        quad_areas = np.abs(self.mesh.quad_areas[quad_x_idx, quad_y_idx])
         quad_frac = sub_quad_areas/quad_areas
         return quad_frac
 
-- 
2.43.0


From 609905b97c5afb14a9351679dcb4b3effa029de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:05 +0000
Subject: [PATCH 18/52] fix: build a pixel lookup when only one of the arrays
 is masked

A masked longitude array with a plain latitude array, or the reverse,
raised AttributeError because the plain array has no mask.
---
 glmtools/io/ccd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/ccd.py b/glmtools/io/ccd.py
index c6a789e..734526d 100644
--- a/glmtools/io/ccd.py
+++ b/glmtools/io/ccd.py
@@ -202,7 +202,7 @@ def create_pixel_lookup(lons, lats, leaf_size=40):
 
     if ((type(lats) == np.ma.core.MaskedArray) |
         (type(lons) == np.ma.core.MaskedArray)):
-        good = ~(lats.mask | lons.mask)
+        good = ~(np.ma.getmaskarray(lats) | np.ma.getmaskarray(lons))
     else:
         # all are assumed good
         good = np.ones_like(lats, dtype=bool)
-- 
2.43.0


From 7baea46e270c80bbf3dd0f2e5863ba34d2412cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:06 +0000
Subject: [PATCH 19/52] fix: set the coordinates of converted text files on
 current xarray

set_coords no longer accepts the inplace argument, so every conversion of
a text-format file failed with a TypeError.
---
 glmtools/io/convert_lcfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/convert_lcfa.py b/glmtools/io/convert_lcfa.py
index 4fb4ae5..663ec63 100644
--- a/glmtools/io/convert_lcfa.py
+++ b/glmtools/io/convert_lcfa.py
@@ -149,7 +149,7 @@ def merge_dataframes_to_xarray(flashes, groups, events):
     flx = flashes.to_xarray()
     grx = groups.to_xarray()
     egf = evx.merge(grx).merge(flx)
-    egf.set_coords(nc_coords, inplace=True)
+    egf = egf.set_coords(nc_coords)
     return egf
 
 def main(infile, outfile):
-- 
2.43.0


From 1fd6c932a472b5d83b9500c878f45f88fbe865bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:57 +0000
Subject: [PATCH 20/52] fix: write images to the current directory when outpath
 has no directory

A template such as '{dataset_name}' has an empty directory part, and
trying to create that directory raised FileNotFoundError.
---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 6f2c4bd..f3cfc73 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -522,7 +522,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         outfile = outpath.format(start_time=start, end_time=end,
                                  dataset_name=dataset.attrs['dataset_name'])
         enclosing_dir = os.path.dirname(outfile)
-        if os.path.exists(enclosing_dir) == False:
+        if enclosing_dir and (os.path.exists(enclosing_dir) == False):
             os.makedirs(enclosing_dir)
 
         # Adding a new variable to the dataset below clears the coord attrs
-- 
2.43.0


From 9685cba47649ed6fa9f09d4d6fdcedd7fd3c775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:57 +0000
Subject: [PATCH 21/52] fix: keep tenths of a second in image file names

The last digit of the times in the file name is tenths of a second, but it
was always written as zero. Frames that start or end between whole seconds
were given names that parse to another time.
---
 glmtools/io/imagery.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index f3cfc73..b20bca0 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -269,9 +269,12 @@ def get_glm_global_attrs(start, end, platform, slot, instrument, scene_id,
                    "OTHER":"Custom"}
 
     # "OR_GLM-L2-GLMC-M3_G16_s20181011100000_e20181011101000_c20181011124580.nc
+    # The last digit of each time is tenths of a second.
+    def name_time(t):
+        return t.strftime('%Y%j%H%M%S') + str(t.microsecond//100000)
     dataset_name = "OR_GLM-L2-GLM{5}-{0}_{1}_s{2}_e{3}_c{4}.nc".format(
-        modes[timeline], platform, start.strftime('%Y%j%H%M%S0'),
-        end.strftime('%Y%j%H%M%S0'), created.strftime('%Y%j%H%M%S0'),
+        modes[timeline], platform, name_time(start),
+        name_time(end), name_time(created),
         scenes[scene_id]
     )
 
-- 
2.43.0


From 35274bd242f39bc40e49e4bb0dde2408e3e16762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:57 +0000
Subject: [PATCH 22/52] fix: do not raise small values in the caller's array

Making an image variable raised values below the packing step in the array
passed in. The flash and group densities of a gridder were changed before
they were used to calculate the average areas.
---
 glmtools/io/imagery.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index b20bca0..1e6ea04 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -351,6 +351,7 @@ def glm_image_to_var(data, name, long_name, units, dims, fill=0.0,
             if add_offset is not None:
                 min_allowed += add_offset
             tiny = (data > 0.0) & (data <= min_allowed)
+            data = data.copy() # leave the caller's grid as it was
             data[tiny] = min_allowed
         if add_offset is not None:
             enc['add_offset'] = add_offset
-- 
2.43.0


From c465353690f2dd9470f76f764e3b2531c81f03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:08 +0000
Subject: [PATCH 23/52] fix: leave the accumulated area totals in the gridder
 when writing images

Average areas were divided in place in the gridder's total area grids, so
writing the same gridded result again divided them a second time.
---
 glmtools/io/imagery.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 1e6ea04..cddc570 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -540,6 +540,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
                 denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,ti]
                 zeros = (denom == 0) | (grid == 0)
                 nonzeros = ~zeros
+                grid = grid.copy() # keep the totals in the gridder
                 grid[nonzeros] = grid[nonzeros]/denom[nonzeros]
                 grid[zeros] = 0 # avoid nans
             image_at_time = np.flipud(grid.T)
-- 
2.43.0


From 064147940ab085742973afacc4e5cb8b0a9362b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:29 +0000
Subject: [PATCH 24/52] fix: store values above the packing range as the
 largest packable value

Values too large for the packed integer type wrapped around when written,
so the brightest cells were stored as small values or as missing.
---
 glmtools/io/imagery.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index cddc570..e8ed86d 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -353,6 +353,11 @@ def glm_image_to_var(data, name, long_name, units, dims, fill=0.0,
             tiny = (data > 0.0) & (data <= min_allowed)
             data = data.copy() # leave the caller's grid as it was
             data[tiny] = min_allowed
+            # Larger values would wrap around to small or missing values.
+            max_allowed = np.iinfo(orig_dtype).max * scale_factor
+            if add_offset is not None:
+                max_allowed += add_offset
+            data[data > max_allowed] = max_allowed
         if add_offset is not None:
             enc['add_offset'] = add_offset
     meta['standard_name'] = name
-- 
2.43.0


From 938a3cdce3c26157dae27975dac454626d8aa248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:04 +0000
Subject: [PATCH 25/52] fix: find the time span to aggregate with current
 pandas

pd.Timestamp does not accept a zero-dimensional array, so aggregating
without giving the start and end times raised TypeError.
---
 glmtools/io/imagery.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index e8ed86d..d56a2fc 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -611,11 +611,9 @@ def aggregate(glm, minutes, start_end=None):
         start = start_end[0]
         end = start_end[1]
     else:
-        start = pd.Timestamp(glm['time'].min().data).to_pydatetime()
-        end = pd.Timestamp(glm['time'].max().data).to_pydatetime() + dt
+        start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
+        end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
         # The lines below might be necessary replacements for a future version
-        # start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
-        # end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
         # dt_np = (end - start).data
         # duration = pd.to_timedelta(dt_np).to_pytimedelta()
     duration = end - start
-- 
2.43.0


From 1967cd8ba84c16c4460d16d35364d7def800bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:11 +0000
Subject: [PATCH 26/52] fix: aggregate each frame into the bin that starts at
 or before it

Bins were closed on the right, so the first frame was dropped and a frame
at a bin boundary was counted in the previous bin. Frames are labelled with
their start time, so bins must include their left edge.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index d56a2fc..78b30f9 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -637,8 +637,8 @@ def aggregate(glm, minutes, start_end=None):
     sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
-    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-    t_groups_min = min_data.groupby_bins('time', bins=t_bins)
+    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
+    t_groups_min = min_data.groupby_bins('time', bins=t_bins, right=False)
 
     aggregated_min = t_groups_min.min(dim='time', keep_attrs=True, skipna=True)
 
-- 
2.43.0


From adc6f4f0095ecfd81233d2a7d7856ab7383e2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:12 +0000
Subject: [PATCH 27/52] fix: aggregate group areas from the group fields

The total group area was calculated from the flash area and flash extent
density, so the aggregated average group area was wrong.
---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 78b30f9..28ebf2f 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -634,7 +634,7 @@ def aggregate(glm, minutes, start_end=None):
 
 
     sum_data['total_flash_area'] = glm.average_flash_area*glm.flash_extent_density
-    sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
+    sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
     t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
-- 
2.43.0


From 2a9d6a4942f1c748b6d8fc9c47e5e73f5da0fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:13 +0000
Subject: [PATCH 28/52] fix: give each tile its own output options

Writing a tile removes the pad and scale_and_offset entries from the output
options. The options were shared by all tiles, so the second and later tiles
of a subdivided grid fell back to the defaults.
---
 glmtools/grid/make_grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 1836557..423611d 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -696,6 +696,8 @@ def subdivided_fixed_grid(kwargs, process_flash_kwargs, out_kwargs, s=1,
         outfile_prefix_base_ij += '{0:02d}-{1:02d}'.format(i,j)
         out_kwargs_ij = out_kwargs.copy()
         out_kwargs_ij['output_filename_prefix'] = outfile_prefix_base_ij
+        # These are modified when each tile is written, so don't share them.
+        out_kwargs_ij['output_kwargs'] = dict(out_kwargs.get('output_kwargs', {}))
 
         # out_kwargs_ij['output_writer_cache'] = out_kwargs_ij['output_writer']
         preprocess_out = GridOutputPreprocess(
-- 
2.43.0


From e88770e35198f1bc48863ff7aad73ae4d64a9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:20 +0000
Subject: [PATCH 29/52] fix: split events over all the grid cells they overlap

Events were split over the 160 cells nearest to their center. At 0.5 km
spacing an event covers about 290 cells, so part of its energy and extent
was lost, and events centered just off the grid were dropped. Look for
cells in the bounding box of each event instead, as is done for groups and
flashes.
---
 glmtools/io/mimic_lma.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f4bd3d5..4eb5bb7 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -187,7 +187,9 @@ def fast_fixed_grid_read_chunk(flash_data, target=None, base_date=None, nadir_lo
     slicer = QuadMeshPolySlicer(mesh)
     # --- Split up the events ---
     log.info("Starting to split events")
-    chopped_polys, poly_areas = slicer.slice(event_polys)
+    # Use each event's bounding box to find the cells it overlaps. A fixed
+    # number of nearest neighbors is too few when the cells are small.
+    chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
     log.info("Sliced all events")
     split_event_polys, split_event_properties = split_event_data(
         chopped_polys, poly_areas, slicer, event_ids=event_ids)
-- 
2.43.0


From 8be49cc581c25f2109844fe3b2996372cb178789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:06 +0000
Subject: [PATCH 30/52] fix: allow a selection of flashes that misses the
 target grid

When none of the events of a file overlapped the grid, finding the largest
cell index of an empty table raised ValueError before the check for no data
was reached.
---
 glmtools/io/mimic_lma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 4eb5bb7..28e2641 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -822,6 +822,10 @@ def _fake_lma_events_from_split_glm_lutevents(split_events, basedate):
                  ('lutevent_min_flash_area', 'f4'),
                  ]
 
+    if split_events.split_event_mesh_x_idx.shape[0] == 0:
+        # no data, nothing to do
+        return np.empty((0,), dtype=lut_split_event_dtype)
+
     split_events['split_event_mesh_area_fraction'] = np.fabs(
             split_events.split_event_mesh_area_fraction)
 
-- 
2.43.0


From 472d295865a23e5d2f2775cb65b210e3707443b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:56 +0000
Subject: [PATCH 31/52] fix: make the ellipsoid revision optional when gridding

The other flash processing options may be left out, but gridding without
an explicit ellipse_rev raised a KeyError. Use the same default as the
dataset class, which infers the revision from the file date.
---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 423611d..c3707b7 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -864,7 +864,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
     """
 
     subgridij, kwargsij, process_flash_kwargs_ij, out_kwargs_ij, pads = subgrid
-    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev')
+    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev', -1)
 
     # Eventually, we want to trim off n_x/y_pad from each side of the grid
     # n_x_pad, n_y_pad, x_pad, y_pad = pads
-- 
2.43.0


From 8e649a840eff9f26030947417d635fd6929895ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:24 +0000
Subject: [PATCH 32/52] fix: write images when none of the files has any events

The attributes needed for the output were only recorded from files with
events, so gridding a quiet period failed while writing. Record them from
the first file whether or not it has events.
---
 glmtools/grid/make_grids.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index c3707b7..e856b40 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -896,6 +896,9 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             process_flash_kwargs_ij))
         sys.stdout.flush()
         glm = GLMDataset(filename, ellipse_rev=ellipse_rev)
+        if not saved_first_file_metadata:
+            gridder.first_file_attrs = dict(glm.dataset.attrs)
+            saved_first_file_metadata = True
         # Pre-load the whole dataset, as recommended by the xarray docs.
         # This saves an absurd amount of time (factor of 80ish) in
         # grid.split_events.replicate_and_split_events
@@ -904,9 +907,6 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             # data from an empty dimension.
             glm.dataset.load()
 
-            if not saved_first_file_metadata:
-                gridder.first_file_attrs = dict(glm.dataset.attrs)
-                saved_first_file_metadata = True
             gridder.process_flashes(glm, **process_flash_kwargs_ij)
         else:
             log.info("Skipping {0} - number of events is 0".format(filename))
-- 
2.43.0


From f4f57bf977f04f0f1773d96f114d12d1038c0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:17 +0000
Subject: [PATCH 33/52] fix: look up files in a collection by their start time

The product time is a zero-dimensional array, and converting it to an
object array does not give a datetime that can be used as a key.
---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 28e2641..89bc77a 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1035,7 +1035,7 @@ class GLMncCollection(LMAh5Collection):
         glm = GLMDataset(fname, calculate_parent_child=False)
         # Get the time, using 'seconds' resolution because GLM files are
         # produced on 20 s boundaries (or any number of even seconds)
-        t_start = glm.dataset.product_time.data.astype('M8[s]').astype('O')
+        t_start = glm.dataset.product_time.data.astype('M8[s]').item()
         # In the LMA API, we track the table name in the H5 file that goes
         # with the time. No such thing exists for GLM data.
         self._time_lookup[t_start] = (fname, None)
-- 
2.43.0


From 49dd2d3722fec00aec71d361fd7d02da68416e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:24 +0000
Subject: [PATCH 34/52] fix: stack the tables of a file collection from lists

numpy no longer accepts a generator as the sequence of arrays to stack.
---
 glmtools/io/mimic_lma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 89bc77a..1b2fc00 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1055,8 +1055,8 @@ class GLMncCollection(LMAh5Collection):
                                 lon_range=self.lon_range,
                                 lat_range=self.lat_range,
                                 clip_events=False)
-        ev_chunks = (d['flash'][0] for d in fake_lma)
-        fl_chunks = (d['flash'][1] for d in fake_lma)
+        ev_chunks = [d['flash'][0] for d in fake_lma]
+        fl_chunks = [d['flash'][1] for d in fake_lma]
         events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
         log.info('data from {0}'.format(fname))
         return events, flashes
-- 
2.43.0


From 1b1920dd3ed4edc0941340f58c91091537be8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:39 +0000
Subject: [PATCH 35/52] fix: return empty tables for a collection time without
 flashes

A file with no flashes, or none that pass the filters, gave no chunks and
raised a ValueError instead of returning zero rows.
---
 glmtools/io/mimic_lma.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 1b2fc00..6827cf9 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1055,8 +1055,12 @@ class GLMncCollection(LMAh5Collection):
                                 lon_range=self.lon_range,
                                 lat_range=self.lat_range,
                                 clip_events=False)
-        ev_chunks = [d['flash'][0] for d in fake_lma]
-        fl_chunks = [d['flash'][1] for d in fake_lma]
+        # There are no chunks if no flashes were selected, so begin with empty
+        # tables.
+        ev_chunks = [np.empty(0, dtype=event_dtype)]
+        fl_chunks = [np.empty(0, dtype=flash_dtype)]
+        ev_chunks += [d['flash'][0] for d in fake_lma]
+        fl_chunks += [d['flash'][1] for d in fake_lma]
         events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
         log.info('data from {0}'.format(fname))
         return events, flashes
-- 
2.43.0


From a9ffa0350a8eab0b27c33360712342735ae371a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:57 +0000
Subject: [PATCH 36/52] fix: keep the energy of events with the smallest
 nonzero value

When the scale factor and offset are double precision and the offset is
not zero, the decoded single precision energies can be slightly less than
the smallest value calculated from the encoding, and valid events were
taken for events with zero energy.
---
 glmtools/io/glm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index cfd9e29..cbe13e0 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -353,7 +353,10 @@ class GLMDataset(OneToManyTraversal):
         min_discr_energy = (self.dataset.event_energy.encoding['add_offset'] +
                             self.dataset.event_energy.encoding['scale_factor'])
         min_energy = fraction_of_min*min_discr_energy
-        zero_energy = (self.dataset.event_energy < min_discr_energy)
+        # Compare halfway between zero and the minimum, since the minimum itself
+        # may have been rounded down when it was decoded to single precision.
+        zero_energy = (self.dataset.event_energy < (min_discr_energy -
+                       0.5*self.dataset.event_energy.encoding['scale_factor']))
         if zero_energy.any():
             log.debug("Setting zero-energy events to {0}".format(min_energy))
             self.dataset.event_energy[zero_energy] = min_energy
-- 
2.43.0


From cc6f2e00c9dc5ed9eda7c80365670ee318400979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:20 +0000
Subject: [PATCH 37/52] fix: calculate areas of many polygons with integer
 coordinates

The areas were halved in place, which numpy does not allow for integers.
---
 glmtools/grid/clipping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index e26d933..f171572 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -52,7 +52,7 @@ def vectorized_poly_area(x,y):
     area = det.sum(axis=1)
     # wrap-around terms in determinant
     area += x[:, -1]*y[:, 0] - x[:, 0]*y[:,-1]
-    area *= 0.5
+    area = area*0.5
     return area
 
 def poly_area(x,y):
-- 
2.43.0


From 0e4730f4cbfb7473aa2595e8e7559c8ea3eacc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:29 +0000
Subject: [PATCH 38/52] fix: leave a Dataset passed to GLMDataset unchanged

GLMDataset accepts an already opened xarray Dataset. It added variables to
that object and changed its energies, areas and units in place, so opening the
same object a second time raised KeyError.
---
 glmtools/io/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index cbe13e0..7a69cfb 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -193,7 +193,8 @@ class GLMDataset(OneToManyTraversal):
         self.parent_ids = ['group_parent_flash_id', 'event_parent_group_id']
 
         if isinstance(filename, xr.Dataset):
-            dataset = filename
+            # Units, times and so on are changed below, so work on a copy.
+            dataset = filename.copy(deep=True)
             super().__init__(dataset,
                              self.entity_ids, self.parent_ids)
         else:
-- 
2.43.0


From c6a37fbb16bb3a5d1fdc28d88baf877c857b719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:29 +0000
Subject: [PATCH 39/52] fix: correct D0.07 times when GLMDataset is given a
 Dataset

The correction reads the undecoded times again with xarray.open_dataset, which
does not accept a Dataset. Read them from the file the Dataset came from.
---
 glmtools/io/glm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 7a69cfb..8e37d97 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -462,6 +462,9 @@ class GLMDataset(OneToManyTraversal):
         # within the date range. Later, adding the attribute to a file that already has it
         # is no problem, so we don't worry about the last time on Nov 6 when the fix is needed.
         if (in_time & hasattr(self.dataset,'group_frame_time_offset')):
+            if isinstance(filename, xr.Dataset):
+                # The undecoded times have to be read from the original file.
+                filename = filename.encoding['source']
             unmod = xr.open_dataset(filename, mask_and_scale=False, decode_cf=False)
             time_dataset = xr.Dataset()
             for var in self.entity_ids:
-- 
2.43.0


From 9cb6cb68375eae823dc65974cbce235c396f006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:36 +0000
Subject: [PATCH 40/52] fix: plot grids with current cartopy

The background_patch and outline_patch attributes of map axes no longer exist,
so plot_glm_grid raised AttributeError.
---
 glmtools/plot/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/plot/grid.py b/glmtools/plot/grid.py
index b2cf746..04bfb01 100644
--- a/glmtools/plot/grid.py
+++ b/glmtools/plot/grid.py
@@ -60,7 +60,7 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
         max_format = display_params[f]['format_string']
 
         ax = fig.add_subplot(subplots[0], subplots[1], fi+1, projection=proj)
-        ax.background_patch.set_facecolor(axes_facecolor)
+        ax.patch.set_facecolor(axes_facecolor)
 #         ax.set_aspect('auto', adjustable=None)
 
         ax.coastlines('10m', color=map_color)
@@ -126,7 +126,7 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
         cbar = plt.colorbar(glm_img, orientation='horizontal', cax=cbar_ax, #aspect=50,
                     format=LogFormatter(base=2), ticks=LogLocator(base=2))
         cbar.outline.set_edgecolor(axes_facecolor)
-        ax.outline_patch.set_edgecolor(axes_facecolor)
+        ax.spines['geo'].set_edgecolor(axes_facecolor)
         cbar.ax.tick_params(direction='in', color=axes_facecolor, which='both',
                             pad=-14, labelsize=10, labelcolor=axes_facecolor)
         cbar_obj.append(cbar)
-- 
2.43.0


From 47e01d9e366d04c57bb7cf3a831ad6c31ff48878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:36 +0000
Subject: [PATCH 41/52] fix: share the axes of grid plots with current
 matplotlib and cartopy

GeoAxesSubplot and the join method of shared axes no longer exist, so
plot_glm_grid failed after drawing.
---
 glmtools/plot/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glmtools/plot/grid.py b/glmtools/plot/grid.py
index 04bfb01..a139a55 100644
--- a/glmtools/plot/grid.py
+++ b/glmtools/plot/grid.py
@@ -23,10 +23,10 @@ panel_labels=['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l']
 
 def set_shared_geoaxes(fig):
     mapax =[axi for axi in fig.axes if
-            type(axi)==cartopy.mpl.geoaxes.GeoAxesSubplot]
-    # for axi in fig.mapax[1:]:
-    mapax[0].get_shared_x_axes().join(*mapax)
-    mapax[0].get_shared_y_axes().join(*mapax)
+            isinstance(axi, cartopy.mpl.geoaxes.GeoAxes)]
+    for axi in mapax[1:]:
+        axi.sharex(mapax[0])
+        axi.sharey(mapax[0])
     return mapax
 
 
-- 
2.43.0


From 48b1237a3200b570873d61dfab8f182b9c60ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:37 +0000
Subject: [PATCH 42/52] fix: use the sweep axis of the data in grid plots

The map projection used the cartopy default, which is not that of GOES, so
map lines were displaced from the image.
---
 glmtools/plot/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/plot/grid.py b/glmtools/plot/grid.py
index a139a55..a9c3b90 100644
--- a/glmtools/plot/grid.py
+++ b/glmtools/plot/grid.py
@@ -49,7 +49,8 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
                                                     scale='50m', facecolor='none')
     globe = ccrs.Globe(semimajor_axis=proj_var.semi_major_axis, semiminor_axis=proj_var.semi_minor_axis)
     proj = ccrs.Geostationary(central_longitude=proj_var.longitude_of_projection_origin,
-                              satellite_height=proj_var.perspective_point_height, globe=globe)
+                              satellite_height=proj_var.perspective_point_height, globe=globe,
+                              sweep_axis=proj_var.sweep_angle_axis)
     cbars=[]
 
     for fi, f in enumerate(fields):
-- 
2.43.0


From f2863bf7e71bdcfec56d12efaf2a771e411851ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:11 +0000
Subject: [PATCH 43/52] fix: round the cell size given in the units of gridded
 densities

The product of the cell widths was truncated, so that a 10 km grid was labelled
78399 instead of 78400 square microradians.
---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index e856b40..114f2fe 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -292,7 +292,7 @@ class GLMGridder(FlashGridder):
         if self.proj_name=='latlong':
             density_units = "grid"
         elif self.proj_name == 'geos':
-            density_units = 'nominal {0:7d} microradian^2'.format(int(dx*dy*1e12))
+            density_units = 'nominal {0:7d} microradian^2'.format(int(round(dx*dy*1e12)))
         else:
             density_units = "{0:5.1f} km^2".format(dx*spatial_scale_factor * dy*spatial_scale_factor).lstrip()
         time_units = "{0:5.1f} min".format(self.frame_interval/60.0).lstrip()
-- 
2.43.0


From 26cfc59e72f8d5cbeffeb59d5652a6f7246b98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:16:04 +0000
Subject: [PATCH 44/52] fix: count the events of each flash and group in the
 parent tables

---
 glmtools/io/mimic_lma.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 6827cf9..925e66b 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -663,7 +663,7 @@ def _fake_lma_from_glm_flashes(flash_data, basedate,
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.flash_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.flash_child_event_count.data
 
     # Fake the altitude data
     event_np['alt'] = 0.0
@@ -728,7 +728,7 @@ def _fake_lma_from_glm_groups(flash_data, basedate,
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.group_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.group_child_event_count.data
 
     # Fake the altitude data
     event_np['alt'] = 0.0
@@ -794,7 +794,7 @@ def _fake_lma_from_glm_events(flash_data, basedate,
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.event_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = 1
 
     # Fake the altitude data
     event_np['alt'] = 0.0
@@ -911,7 +911,7 @@ def _fake_lma_from_glm_lutflashes(flash_data, basedate):
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.flash_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.flash_child_event_count.data
 
     # Fake the altitude data
     flash_np['ctr_z'] = 0.0
@@ -934,7 +934,7 @@ def _fake_lma_from_glm_lutgroups(flash_data, basedate):
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.group_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.group_child_event_count.data
 
     # Fake the altitude data
     flash_np['ctr_z'] = 0.0
-- 
2.43.0


From efa87de3e47a5ea7551183dd4f3e124903e09bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:00 +0000
Subject: [PATCH 45/52] fix: leave the output options of the caller alone when
 writing grids

---
 glmtools/grid/make_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 114f2fe..0884a17 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -600,8 +600,8 @@ class GLMlutGridder(GLMGridder):
                     output_writer_3d = None,
                     output_filename_prefix = None, output_kwargs={}):
 
-        pad = output_kwargs.pop('pad', None)
-        scale_and_offset = output_kwargs.pop('scale_and_offset', True)
+        pad = output_kwargs.get('pad', None)
+        scale_and_offset = output_kwargs.get('scale_and_offset', True)
 
         from glmtools.io.imagery import write_goes_imagery
         all_outfiles = write_goes_imagery(self, outpath=outpath, pad=pad,
-- 
2.43.0


From 9f4162f1dcd0a649478b53b0c66bde92febfa692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:18:49 +0000
Subject: [PATCH 46/52] fix: report the files of images written by the gridder

---
 glmtools/grid/make_grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 0884a17..5537322 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -934,6 +934,8 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
         # subgrids are handled - avoiding the hacky output preprocessor in
         # all cases.
         outfilenames = preprocess_out.write_all()
+        if not outfilenames:
+            outfilenames = output
     else:
         outfilenames = gridder.write_grids(**out_kwargs_ij)
 
-- 
2.43.0


From 6b87654571a9bae635abac46a9161c745f57766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:25:57 +0000
Subject: [PATCH 47/52] fix: set up the grid of minimum flash area when events
 are not split

---
 glmtools/grid/make_grids.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 5537322..b5e4b0d 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -77,7 +77,9 @@ class GLMGridder(FlashGridder):
         # From a data structure point of view, there is no difference
         # between the group and flash grids. Later, if there are differnces,
         # just copy the flash_pipeline_setup method and start modifying.
-        return self.flash_pipeline_setup()
+        # The minimum area is only provided for flashes.
+        outgrids, framer = self.flash_pipeline_setup()
+        return outgrids[:3], framer
 
     def flash_pipeline_setup(self):
         """ Create target grids and set up the flash accumulation pipeline. Also used
@@ -99,6 +101,7 @@ class GLMGridder(FlashGridder):
         init_density_grid   = np.zeros(grid_shape, dtype='float32')
         extent_density_grid = np.zeros(grid_shape, dtype='float32')
         footprint_grid      = np.zeros(grid_shape, dtype='float32')
+        min_area_grid       = np.zeros(grid_shape, dtype='float32')
         # flashsize_std_grid  = np.zeros(grid_shape, dtype='float32')
 
         all_frames = []
@@ -111,6 +114,9 @@ class GLMGridder(FlashGridder):
             accum_footprint      = accumulate_points_on_grid(
                 footprint_grid[:,:,i], xedge, yedge,
                 label='footprint', grid_frac_weights=True)
+            accum_min_area       = accumulate_minimum_on_grid(
+                min_area_grid[:,:,i], xedge, yedge,
+                label='min_area', grid_frac_weights=True)
             # accum_flashstd       = accumulate_points_on_grid_sdev(
             #     flashsize_std_grid[:,:,i], footprint_grid[:,:,i], xedge, yedge,
             #     label='flashsize_std',  grid_frac_weights=True)
@@ -122,6 +128,9 @@ class GLMGridder(FlashGridder):
             mean_footprint_target = extent_density(x0, y0, dx, dy,
                 accum_footprint, weight_key='area',
                 event_grid_area_fraction_key=event_grid_area_fraction_key)
+            min_area_target       = extent_density(x0, y0, dx, dy,
+                accum_min_area, weight_key='area',
+                event_grid_area_fraction_key=event_grid_area_fraction_key)
             # std_flashsize_target  = extent_density(x0, y0, dx, dy,
             #     accum_flashstd, weight_key='area',
             #     event_grid_area_fraction_key=event_grid_area_fraction_key)
@@ -133,6 +142,8 @@ class GLMGridder(FlashGridder):
                     extent_density_target, use_flashes=False),
                 project('lon', 'lat', 'alt', mapProj, geoProj,
                     mean_footprint_target, use_flashes=False),
+                project('lon', 'lat', 'alt', mapProj, geoProj,
+                    min_area_target, use_flashes=False),
                 # project('lon', 'lat', 'alt', mapProj, geoProj,
                 #     std_flashsize_target, use_flashes=False),
                 )
@@ -147,7 +158,7 @@ class GLMGridder(FlashGridder):
                      flash_counter=frame_count_log)
 
         outgrids = (init_density_grid, extent_density_grid,
-            footprint_grid,
+            footprint_grid, min_area_grid,
             # flashsize_std_grid,
             )
         return outgrids, framer
-- 
2.43.0


From e362898611efd51aede6562e16efb6f03d878e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:01:00 +0000
Subject: [PATCH 48/52] fix: label plots of event density as event density

---
 glmtools/plot/values.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/glmtools/plot/values.py b/glmtools/plot/values.py
index 95ba513..5c87a88 100644
--- a/glmtools/plot/values.py
+++ b/glmtools/plot/values.py
@@ -29,7 +29,12 @@ display_params['group_extent_density'] = {
     'file_tag':'group_extent',
     'format_string':'{0:3.0f}'
 }
-display_params['event_density']=display_params['group_extent_density']
+display_params['event_density'] = {
+    'product_label':"GOES-16 GLM Event Density (count)",
+    'glm_norm':LogNorm(vmin=1, vmax=500),
+    'file_tag':'event_density',
+    'format_string':'{0:3.0f}'
+}
 
 display_params['total_energy'] = {
     'product_label':"GOES-16 GLM Total Energy (nJ)",
-- 
2.43.0


From 89fe6a8e5bf81599a8c2ae6d984af37f2a1c2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:21 +0000
Subject: [PATCH 49/52] fix: state the creation time of images in UTC

---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 28ebf2f..ed30ae5 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -1,5 +1,5 @@
 import os, itertools
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 
 import numpy as np
 import xarray as xr
@@ -253,7 +253,7 @@ def get_glm_global_attrs(start, end, platform, slot, instrument, scene_id,
 
     Returns: meta, a dictionary of metadata attributes.
     """
-    created = datetime.now()
+    created = datetime.now(timezone.utc).replace(tzinfo=None)
     modes = {'ABI Mode 3':'M3'}
 
     # For use in the dataset name / filename
-- 
2.43.0


From 298d40851ba2fd1abe724701d0731e722b381187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:54:03 +0000
Subject: [PATCH 50/52] fix: split every level on the fixed grid without an
 undefined name

---
 glmtools/io/mimic_lma.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 925e66b..23084c3 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -393,10 +393,6 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         # unioning by a little bit to avoid the above problem.
 
         if fixed_grid:
-            pt = flash_data.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
-
             x_lut, y_lut, corner_lut = load_pixel_corner_lookup(corner_pickle)
             # Convert from microradians to radians
             x_lut = x_lut * 1.0e-6
-- 
2.43.0


From cc05504f2c9a98f558cada77a5a83be106490912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:54:03 +0000
Subject: [PATCH 51/52] fix: split whole events when splitting every level on a
 fine grid

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 23084c3..675b6ea 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -416,7 +416,7 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         slicer = QuadMeshPolySlicer(mesh)
         # --- Split up the events ---
         log.info("Starting to split events")
-        chopped_polys, poly_areas = slicer.slice(event_polys)
+        chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
         log.info("Sliced all events")
         split_event_polys, split_event_properties = split_event_data(chopped_polys, poly_areas, slicer, event_ids=event_ids)
         if fixed_grid:
-- 
2.43.0


From 0920e63563fd426a8dcb997b9767c217f3ce8bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:54:03 +0000
Subject: [PATCH 52/52] fix: divide the energy of a record over all parts of
 its footprint

---
 glmtools/io/mimic_lma.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 675b6ea..766f7d9 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -319,6 +319,22 @@ def replicate_and_weight_split_child_dataset_new(parent_data, split_child_datase
     return split_child_dataset
 
 
+def share_among_parts(chopped_polys, poly_areas, parent_ids):
+    """ The footprint of one parent may consist of several separate polygons.
+    Given the results of QuadMeshPolySlicer.slice for polygons that belong to
+    parent_ids, return the same with areas (and fractions of those areas) that
+    refer to all polygons of the parent together.
+    """
+    total_areas = {}
+    for area, parent_id in zip(poly_areas, parent_ids):
+        total_areas[parent_id] = total_areas.get(parent_id, 0.0) + area
+    parent_areas = [total_areas[parent_id] for parent_id in parent_ids]
+    chopped_parents = [(sub_polys, np.asarray(frac_areas)*area/parent_area, idxs)
+        for (sub_polys, frac_areas, idxs), area, parent_area
+        in zip(chopped_polys, poly_areas, parent_areas)]
+    return chopped_parents, parent_areas
+
+
 def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lon=None,
          fixed_grid=False, clip_events=True, corner_pickle=None):
     """ For the chunk of GLM data in flash_data, prepare a dataset that can be sent
@@ -459,6 +475,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
             union_group_ids.extend([gr_id,]*len(gr_join_poly))
 
         chopped_union_polys, poly_union_areas = slicer.slice(union_polys, bbox=True)
+        chopped_union_polys, poly_union_areas = share_among_parts(
+            chopped_union_polys, poly_union_areas, union_group_ids)
         log.info("Sliced all groups")
         split_group_polys, split_group_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_group_ids)
@@ -508,6 +526,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         # all_flash_sub_polys = [p for p in itertools.chain.from_iterable(poly_index.values())]
 
         chopped_union_polys, poly_union_areas = slicer.slice(union_polys, bbox=True)
+        chopped_union_polys, poly_union_areas = share_among_parts(
+            chopped_union_polys, poly_union_areas, union_flash_ids)
         log.info("Sliced all flashes")
         split_flash_polys, split_flash_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_flash_ids)
-- 
2.43.0

