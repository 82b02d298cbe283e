From d2d4953fb3b47b89d236d17c33ea4a6302212b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 001/131] fix: coordinates of sliced cell centered fields

The edges of the selected cells were wrong, or couldn't be wrapped at all, for
negative starts, reversed slices with a stop, strided slices with a stop, and
for index arrays. Locations that were reduced out were always nodes, and
slice_and_keep got negative indices wrong.
---
 viscid/coordinate.py | 77 ++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 718297f..eaf65eb 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -680,32 +680,23 @@ class StructuredCrds(Coordinates):
 
                 sliced_clist_item = None
 
-                # if using step on a cell centered field, we need to figure
-                # stuff out, since the data && crd slices can't be the same,
-                # and it's not as simple as just adding 1 b/c of the stride
-                if cc and slc.step not in [None, 1, -1]:
-                    crd_cc = crd_arrs_cc[i][slc]
-                    crd_nc = 0.5 * (crd_cc[1:] + crd_cc[:-1])
-
-                    allslc = slice(slc.start, slc.stop,
-                                   slc.step // np.abs(slc.step))
-                    allnc = crd_arrs_nc[i][allslc]
-                    crd_nc = np.concatenate([[allnc[0]], crd_nc, [allnc[-1]]])
-
-                    sliced_clist_item = [axis, crd_nc, crd_cc]
-
-                elif cc and slc.stop is not None:
-                    if slc.stop >= 0:
-                        if slc.step is None or slc.step > 0:
-                            newstop = slc.stop + 1
-                        else:
-                            newstop = slc.stop - 1
-                    else:  # slc.stop < 0
-                        # this will slice crds nc, so if we're going backward,
-                        # the extra crd will be included
-                        # print("am i used?", slc.step)
-                        newstop = slc.stop
-                    slc = slice(slc.start, newstop, slc.step)
+                # the data && crd slices of a cell centered field can't be the
+                # same, we need the edges of the cells that were selected
+                if cc and not full_newdim_flags[i]:
+                    start, stop, step = slc.indices(len(crd_arrs_cc[i]))
+                    if step > 0:
+                        crd_nc = crd_arrs_nc[i][start:stop + 1]
+                    else:
+                        crd_nc = crd_arrs_nc[i][stop + 1:start + 2][::-1]
+
+                    if step in [1, -1] and axis not in self._src_crds_cc:
+                        sliced_clist_item = [axis, crd_nc]
+                    else:
+                        crd_cc = crd_arrs_cc[i][slc]
+                        if step not in [1, -1]:
+                            mid = crd_cc[:-1] + 0.5 * (crd_cc[1:] - crd_cc[:-1])
+                            crd_nc = np.concatenate([crd_nc[:1], mid, crd_nc[-1:]])
+                        sliced_clist_item = [axis, crd_nc, crd_cc]
 
                 if sliced_clist_item is None:
                     cval = crd_arrs_nc[i][slc]
@@ -716,14 +707,21 @@ class StructuredCrds(Coordinates):
             elif isinstance(slc, np.ndarray):
                 if cc:
                     cval_cc = crd_arrs_cc[i][slc]
-                    cval_nc = (cval_cc[1:] + cval_cc[:-1]) / 2
-                    cval_nc = extend_arr(cval_nc)
+                    if len(cval_cc) == 1:
+                        # keep the edges of the one cell that's left
+                        cell = np.arange(len(crd_arrs_cc[i]))[slc][0]
+                        cval_nc = crd_arrs_nc[i][cell:cell + 2]
+                    else:
+                        mid = cval_cc[:-1] + 0.5 * (cval_cc[1:] - cval_cc[:-1])
+                        cval_nc = np.concatenate(
+                            [[cval_cc[0] - (mid[0] - cval_cc[0])], mid,
+                             [cval_cc[-1] + (cval_cc[-1] - mid[-1])]])
                     sliced_clist.append([axis, cval_nc, cval_cc])
                 else:
                     sliced_clist.append([axis, crd_arrs_nc[i][slc]])
 
             elif hasattr(slc, "__index__"):
-                cval = crd_arrs_nc[i][slc]
+                cval = crd_arrs[i][slc]
                 reduced.append([axis, cval])
 
             elif slc == np.newaxis:
@@ -754,6 +752,14 @@ class StructuredCrds(Coordinates):
                     any_non_uniform = True
                     break
 
+            # uniform crds have no room for explicit cell centers
+            if len(clist_i) > 2:
+                mid = 0.5 * (clist_i[1][1:] + clist_i[1][:-1])
+                if not np.allclose(mid, clist_i[2], rtol=1e-12,
+                                   atol=1e-12 * np.abs(diff_nc).max()):
+                    any_non_uniform = True
+                    break
+
         if uniform_type == 'uniform' and any_non_uniform:
             uniform_type = 'nonuniform'
 
@@ -825,15 +831,10 @@ class StructuredCrds(Coordinates):
             crd_nc = self.get_nc(axis)
 
             if cc:
-                if loc_ind == -1:
-                    crd = crd_nc[-2:]
-                    slc = slice(-1, None)
-                elif loc_ind == -2:
-                    crd = crd_nc[-2:]
-                    slc = slice(-2, -1)
-                else:
-                    crd = crd_nc[loc_ind:loc_ind + 2]
-                    slc = slice(loc_ind, loc_ind + 1)
+                if loc_ind < 0:
+                    loc_ind += len(self.get_cc(axis))
+                crd = crd_nc[loc_ind:loc_ind + 2]
+                slc = slice(loc_ind, loc_ind + 1)
             else:
                 if loc_ind == -1:
                     crd = crd_nc[-1:]
-- 
2.43.0


From 309527a92203078471e64690147f530444af9726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 002/131] fix: make_fwd_slice for start == len, negative ints
 and newaxis

A backward slice that starts at len(arr) picked the wrong elements, negative
ints were out of bounds when reversed, and a newaxis moved the reversal to
the wrong dimension. Slices are now normalized the way numpy does it.
---
 viscid/sliceutil.py | 87 ++++++++++++---------------------------------
 1 file changed, 23 insertions(+), 64 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 806637a..ea8aa41 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -847,10 +847,6 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     of large arrays on disk, which is most useful when the large array
     is coming through sshfs.
 
-    Note:
-        The only restriction on slices is that neither start nor stop
-        can be outide the range [-L, L].
-
     Args:
         shape: shape of the array that is to be sliced
         slices: a tuple of slices to work with
@@ -897,85 +893,48 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     if not isinstance(reverse, (list, tuple)):
         reverse = [reverse]
 
-    newax_inds = [i for i, x in enumerate(slices) if x == np.newaxis]
+    slices = list(slices)
+    reverse = list(reverse)
+    newax_inds = [i for i, x in enumerate(slices) if x is np.newaxis]
     shape = list(shape)
+    reverse += [False] * (len(shape) - len(reverse))
     for i in newax_inds:
         shape.insert(i, 1)
+        reverse.insert(i, False)
 
     # ya know, lets just go through all the dimensions in shape
-    # just to be safe and default to an empty slice / no reverse
+    # just to be safe and default to an empty slice
     slices = slices + [slice(None)] * (len(shape) - len(slices))
-    reverse = reverse + [False] * (len(slices) - len(reverse))
 
     first_slc = [slice(None)] * len(slices)
     second_slc = [slice(None, None, 1)] * len(first_slc)
 
     for i, slc, L, rev in izip(count(), slices, shape, reverse):
         if isinstance(slc, slice):
-            step = slc.step if slc.step is not None else 1
-            start = slc.start if slc.start is not None else 0
-            stop = slc.stop if slc.stop is not None else L
-            if start < 0:
-                start += L
-            if stop < 0:
-                stop += L
-
-            # sanity check the start/stop since we're gunna be playing
-            # fast and loose with them
-            if start < 0 or stop < 0:
-                raise IndexError("((start = {0}) or (stop = {1})) < 0"
-                                 "".format(start, stop))
-            if start > L or stop > L:
-                raise IndexError("((start={0}) or (stop={1})) > (L={2})"
-                                 "".format(start, stop, L))
-
-            # now do the math of flipping the slice if needed, these branches
-            # change start, stop, and step so they can be used to create a new
-            # slice below
-            if rev:
-                if step < 0:
-                    step = -step
-                    if slc.start is None:
-                        start = L - 1
-                    if slc.stop is None:
-                        start = L - 1 - start
-                        stop = None
-                    else:
-                        start, stop = L - 1 - start, L - 1 - stop
-                else:
-                    start, stop = L - stop, L - start
-                    start += ((stop - 1 - start) % step)
+            step = slc.indices(L)[2]
+            inds = range(*slc.indices(L))
+            if len(inds) == 0:
+                slc = slice(0, 0, 1)
+            else:
+                first, last = inds[0], inds[-1]
+                if rev:
+                    first, last = L - 1 - first, L - 1 - last
+                if first > last:
+                    first, last = last, first
                     second_slc[i] = slice(None, None, -1)
-            elif step < 0:
-                step = -step
-                if slc.start is None:
-                    start = L - 1
-
-                if slc.stop is None:
-                    start, stop = 0, start + 1
-                    start = ((stop - 1 - start) % step)
-                else:
-                    start, stop = stop + 1, start + 1
-                    start += ((stop - 1 - start) % step)
-
-                second_slc[i] = slice(None, None, -1)
-
-            # check that our slice is valid
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or stop is None or start == stop == 0 or \
-                start < stop, "bad slice ordering: {0} !< {1}".format(start, stop)
-            assert step > 0
-            slc = slice(start, stop, step)
+                slc = slice(first, last + 1, abs(step))
 
         elif isinstance(slc, (int, np.integer)):
             second_slc[i] = None
+            if slc < -L or slc >= L:
+                raise IndexError("index {0} is out of bounds for axis {1} with "
+                                 "size {2}".format(slc, i, L))
+            if slc < 0:
+                slc += L
             if rev:
                 slc = (L - 1) - slc
 
-        elif slc == np.newaxis:
+        elif slc is np.newaxis:
             second_slc[i] = "NEWAXIS"
 
         first_slc[i] = slc
-- 
2.43.0


From 5e97508525e21a9f6a245260828a45ec173ff8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 003/131] fix: combine index arrays with ints and other index
 arrays in slices

Coordinates are sliced one axis at a time, but the data used numpy's fancy
indexing, so the data of f[0, :, [1, 2]] was transposed w.r.t. its coordinates.
Index arrays also work for lazily loaded fields and for assignment to
interlaced vector fields now.
---
 viscid/field.py     | 11 ++++++-----
 viscid/sliceutil.py | 28 +++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 79b3089..6627f16 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1131,7 +1131,9 @@ class Field(tree.Leaf):
         # the whole field; h5py will deal with the hyperslicing for us
         slced_dat = None
 
-        hypersliceable = getattr(self._src_data, "_hypersliceable", False)
+        # index arrays are not passed on to the source of the data
+        hypersliceable = (getattr(self._src_data, "_hypersliceable", False) and
+                          not any(isinstance(s, np.ndarray) for s in slices))
         single_comp_slc = hasattr(comp_slc, "__index__")
         cc = (self.iscentered("Cell") or self.iscentered("Face") or
               self.iscentered("Edge"))
@@ -1251,7 +1253,7 @@ class Field(tree.Leaf):
             except TypeError:
                 nr_comp = None
             # use xyz slices cause self.data is guarenteed to be xyz
-            slced_dat = self.data[tuple(slices)]
+            slced_dat = sliceutil.get_orthogonal(self.data, slices)
 
         if len(reduced) == len(slices) or getattr(slced_dat, 'size', 0) == 1:
             # if we sliced the hell out of the array, just
@@ -1361,12 +1363,11 @@ class Field(tree.Leaf):
         sel_list, comp_slc = self._prepare_slice(selection)
         slices, _ = self._src_crds.make_slice(tuple(sel_list), cc=cc)[:2]
         try:
-            nr_comp = self.nr_comp
-            nr_comp += slices[:nr_comp].count(np.newaxis)
+            nr_comp = 0 if self.nr_comp == 0 else len(slices)
             slices.insert(nr_comp, comp_slc)
         except TypeError:
             pass
-        self.data[tuple(slices)] = value
+        sliceutil.set_orthogonal(self.data, slices, value)
         return None
 
     @classmethod
diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index ea8aa41..0ab9783 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -35,7 +35,8 @@ __all__ = ["prune_comp_sel", "raw_sel2sel_list", "fill_nd_sel_list",
            "standardize_sel_list", "standardize_sel", "standardize_value",
            "std_sel_list2index", "std_sel2index",
            "sel_list2values", "sel2values", "selection2values",
-           "make_fwd_slice", "all_slices_none"
+           "make_fwd_slice", "get_orthogonal", "set_orthogonal",
+           "all_slices_none"
            ]
 
 
@@ -947,6 +948,31 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
 
 #######################################################################
 
+def get_orthogonal(arr, slices):
+    """Slice arr such that index arrays only select along their own dimension
+
+    This is how coordinates are sliced. Numpy on the other hand would broadcast
+    all index arrays and ints against one another.
+    """
+    # ints, slices and newaxis are always orthogonal
+    ret = arr[tuple(slice(None) if isinstance(s, np.ndarray) else s
+                    for s in slices)]
+    axis = 0
+    for s in slices:
+        if isinstance(s, np.ndarray):
+            ret = ret[(slice(None),) * axis + (s,)]
+        elif hasattr(s, "__index__"):
+            continue
+        axis += 1
+    return ret
+
+def set_orthogonal(arr, slices, value):
+    """Set the elements of arr that get_orthogonal would return"""
+    if any(isinstance(s, np.ndarray) for s in slices):
+        inds = get_orthogonal(np.arange(arr.size).reshape(arr.shape), slices)
+        slices = np.unravel_index(inds, arr.shape)
+    arr[tuple(slices)] = value
+
 def all_slices_none(slices):
     '''true iff all slices have no effect'''
     return all(not isinstance(s, (list, np.ndarray))
-- 
2.43.0


From e831891111aebe371e9867e41c17259d39962c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 004/131] fix: slice_and_reduce with a newaxis

The axis of length one was dropped from the coordinates, but a different
dimension of the data was sliced.
---
 viscid/coordinate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index eaf65eb..7bd466d 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -783,7 +783,8 @@ class StructuredCrds(Coordinates):
 
     def make_slice_reduce(self, selection, cc=False):
         """make slice, and reduce dims that were not explicitly sliced"""
-        slices, crdlst, reduced, crds_type = self.make_slice(selection, cc=cc)
+        slices, crdlst, reduced, crds_type, full_ax_names = \
+            self._make_slice(selection, cc=cc)
         # augment slices / reduced
 
         reduced_axes = [t[0] for t in reduced]
@@ -792,11 +793,11 @@ class StructuredCrds(Coordinates):
             reduce_axis = False
             if axis not in reduced_axes:
                 if cc and self.shape_cc[i] == 1:
-                    slices[i] = 0
+                    slices[full_ax_names.index(axis)] = 0
                     reduced.insert(i, [axis, self.get_cc(axis)[0]])
                     reduce_axis = True
                 elif not cc and self.shape_nc[i] == 1:
-                    slices[i] = 0
+                    slices[full_ax_names.index(axis)] = 0
                     reduced.insert(i, [axis, self.get_nc(axis)[0]])
                     reduce_axis = True
                 # go find which element of crdlst to take out since there
-- 
2.43.0


From 8d1eba11806a173a5e2ddabef51e67fa7034e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 005/131] fix: loc and iloc of vector fields

An extra slice was inserted for the components, although components are only
ever selected by name, so the wrong axis was sliced. Lists given to loc are
also no longer modified in place.
---
 viscid/field.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 6627f16..d8d8def 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -432,12 +432,8 @@ class _FldSlcProxy(object):
         elif isinstance(item, string_types):
             pass
         elif isinstance(item, (list,)):
-            for i, _ in enumerate(item):
-                # try:
-                if self.do_floatify:
-                    item[i] = 1j * float(item[i])
-                # except (ValueError, TypeError):
-                #     pass
+            if self.do_floatify:
+                item = [1j * float(v) for v in item]
         else:
             if self.do_floatify:
                 item = 1j * float(item)
@@ -456,9 +452,6 @@ class _FldSlcProxy(object):
             else:
                 sel.append(self._floatify(it))
 
-        if self.parent.nr_comps and len(sel) >= self.parent.nr_comp:
-            sel.insert(self.parent.nr_comp, slice(None))
-
         return tuple(sel)
 
     def __getitem__(self, item):
-- 
2.43.0


From 0c60c1d9340e3069f83a7871b7aab5518d21d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 006/131] fix: slicing by a single time as string, and date
 axes by seconds

A single time given as string was taken for a slice that stops there, and
numbers couldn't be used as locations on datetime64 / timedelta64 axes at all.
---
 viscid/sliceutil.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 0ab9783..ea88a0c 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -310,10 +310,15 @@ def standardize_sel(sel):
         if sel[0] == '[' and sel[-1] == ']':
             sel = standardize_value(sel, bool_argwhere=True)
         elif ':' in sel:
-            sel = slice(*[standardize_value(s, bool_argwhere=True)
-                          for s in _split_slice_str(sel)])
-            assert isinstance(sel.step, (type(None), int, np.integer))
-            assert not isinstance(sel.step, (np.datetime64, np.timedelta64))
+            split_sel = [standardize_value(s, bool_argwhere=True)
+                         for s in _split_slice_str(sel)]
+            if len(split_sel) == 1:
+                # the colons were all part of a single time
+                sel = split_sel[0]
+            else:
+                sel = slice(*split_sel)
+                assert isinstance(sel.step, (type(None), int, np.integer))
+                assert not isinstance(sel.step, (np.datetime64, np.timedelta64))
         else:
             sel = standardize_value(sel, bool_argwhere=True)
     elif isinstance(sel, slice):
@@ -622,7 +627,7 @@ def _unify_sbv_types(std_val, crd_arr, tdunit='s', epoch=None):
             uval = std_val
         elif isinstance(crd_arr[0], np.timedelta64):
             if isinstance(std_val[0, 0], np.floating):
-                uval = as_timedelta64(std_val, unit=tdunit)
+                uval = as_timedelta64(std_val[0], unit=tdunit).reshape(1, -1)
             elif isinstance(std_val[0, 0], np.datetime64):
                 if epoch is None:
                     raise NotImplementedError("Can't slice-by-location a timedelta64 "
@@ -632,7 +637,7 @@ def _unify_sbv_types(std_val, crd_arr, tdunit='s', epoch=None):
                     uval = time_diff(std_val, epoch, most_precise=True)
         elif isinstance(crd_arr[0], np.datetime64):
             if isinstance(std_val[0, 0], np.floating):
-                std_val = as_timedelta64(std_val, unit=tdunit)
+                std_val = as_timedelta64(std_val[0], unit=tdunit).reshape(1, -1)
                 uval = crd_arr[0] + std_val
             elif isinstance(std_val[0, 0], np.timedelta64):
                 uval = crd_arr[0] + std_val
-- 
2.43.0


From 8b53a14c5511c49dc2cbc2dd8adc31b9fced85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 007/131] fix: coordinates with tiny uneven spacings are not
 uniform

---
 viscid/coordinate.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 7bd466d..ca7ac86 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -41,6 +41,11 @@ class NonuniformFullArrayError(ValueError):
     pass
 
 
+def _evenly_spaced(diff, rtol):
+    """True if all spacings in diff are the same, on their own scale"""
+    atol = 1e-8 * min(1.0, np.max(np.abs(diff)))
+    return np.allclose(diff[0], diff, rtol=rtol, atol=atol)
+
 def arrays2crds(crd_arrs, crd_type='AUTO', crd_names="xyzuvw", **kwargs):
     """make either uniform or nonuniform coordnates given full arrays
 
@@ -77,7 +82,7 @@ def arrays2crds(crd_arrs, crd_type='AUTO', crd_names="xyzuvw", **kwargs):
         if viscid.is_timedelta_like(diff, conservative=True):
             diff = diff / np.ones((1,), dtype=diff.dtype)
 
-        if np.allclose(diff[0], diff, rtol=rtol):
+        if _evenly_spaced(diff, rtol):
             uniform_clist.append((crd_name, [arr[0], arr[-1], len(arr)]))
         else:
             is_uniform = False
@@ -748,7 +753,7 @@ class StructuredCrds(Coordinates):
             if diff_nc.shape[0] > 0:
                 # integers / dates / times should have been caught above
                 rtol = 4 * np.finfo(diff_nc.dtype).eps
-                if not np.allclose(diff_nc[0], diff_nc, rtol=rtol):
+                if not _evenly_spaced(diff_nc, rtol):
                     any_non_uniform = True
                     break
 
@@ -1249,7 +1254,7 @@ class UniformCrds(StructuredCrds):
                 # This allclose is the problem... when slicing, it doesn't
                 # always pass
                 rtol = 4 * np.finfo(arr.dtype).eps
-                if not np.allclose(diff[0], diff, rtol=rtol):
+                if not _evenly_spaced(diff, rtol):
                     raise NonuniformFullArrayError("Arrays are not uniform, {0}"
                                                    "".format(arr))
                 if len(arr) > 0:
-- 
2.43.0


From 44826df899ee153b43cce192106f553669b4735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 008/131] fix: storing in a bucket changed the caller's list of
 handles

---
 viscid/bucket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/bucket.py b/viscid/bucket.py
index cd75cb2..eb2ac78 100755
--- a/viscid/bucket.py
+++ b/viscid/bucket.py
@@ -82,7 +82,7 @@ class Bucket(object):
         hashable_item = self._make_hashable(item)
         if hashable_item not in self._hash_lookup:
             if index_handle:
-                handles += [self._int_counter]
+                handles = handles + [self._int_counter]
                 self._int_counter += 1
 
         handles_added = []
-- 
2.43.0


From 1dcf965c13a9f825a23b531c218d9ee8369ab6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 009/131] fix: a file that failed to load stayed in the bucket
 as None

---
 viscid/readers/vfile_bucket.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 207f1d9..3bc1791 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -128,6 +128,8 @@ class VFileBucket(Bucket):
                         s += "              File Type: {0}\n".format(handle_name)
                         s += "              {0}".format(str(e))
                         logger.warning(s)
+                        # there's no file to remember or return
+                        continue
                     except ValueError as e:
                         # ... why am i explicitly catching ValueErrors?
                         # i'm probably breaking something by re-raising
-- 
2.43.0


From 0d5e6c726c4aaf5b59ff77bb1f404ed400f1ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 010/131] fix: reading selections of fields still on disk

---
 viscid/field.py            | 89 +++++++++++++++++++-------------------
 viscid/readers/openggcm.py |  2 +-
 2 files changed, 46 insertions(+), 45 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index d8d8def..440e546 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -8,7 +8,7 @@ convenience functions for creating fields similar to `Numpy`.
 """
 
 from __future__ import print_function
-from itertools import count, islice
+from itertools import count
 from inspect import isclass
 import re
 
@@ -16,7 +16,7 @@ import numpy as np
 
 import viscid
 from viscid import logger
-from viscid.compat import string_types, izip_longest
+from viscid.compat import string_types
 from viscid import coordinate
 from viscid.cython import interp_trilin
 from viscid import sliceutil
@@ -1147,6 +1147,8 @@ class Field(tree.Leaf):
                 comps = self._src_data[comp_slc]
                 # using xyz slices because it's calling Field.__getitem__
                 slced_dat = [c[tuple(slices)] for c in comps]
+                if not all(isinstance(c, Field) for c in slced_dat):
+                    slced_dat = np.array(slced_dat)
         elif self._cache is None and hypersliceable:
             # we have to flip the slice, meaning: if the array looks like
             # ind     : 0    1     2    3    4    5    6
@@ -1160,50 +1162,46 @@ class Field(tree.Leaf):
             # We will always read _src_data forward, then flip it since
             # h5py won't do a slice of [3:0:-1]
 
-            # using xyz slices b/c that's the order of the crds
-            first_slc, second_slc = self._src_crds.reflect_slices(slices,
-                                                                  cc, False)
+            # using xyz slices b/c that's the order of the crds; new axes come
+            # back when the result is shaped like the sliced crds
+            src_slices = [s for s in slices if s is not np.newaxis]
+            _first, _second = self._src_crds.reflect_slices(src_slices,
+                                                            cc, False)
 
             if zyx_native:
-                native_first_slc = first_slc[::-1]
-                native_second_slc = second_slc[::-1]
-            else:
-                native_first_slc = first_slc
-                native_second_slc = second_slc
+                _first, _second = _first[::-1], _second[::-1]
 
             # now put component slice back in
             try:
-                if self.nr_comp == 0:
-                    nr_comp = 0
-                else:
-                    nr_comp = len(first_slc)
-                first_slc.insert(nr_comp, comp_slc)
-                native_first_slc.insert(nr_comp, comp_slc)
-                if not single_comp_slc:
-                    second_slc.insert(nr_comp, slice(None))
-                    native_second_slc.insert(nr_comp, slice(None))
+                nr_comp = 0 if self.nr_comp == 0 else len(_first)
+                _first.insert(nr_comp, comp_slc)
+                _second.insert(nr_comp, None if single_comp_slc else slice(None))
             except TypeError:
                 nr_comp = None
 
-            # this is a bad hack for the fact that fields and the slices
-            # have 3 spatial dimensions, but the src_data may have fewer
-            _first, _second = native_first_slc, native_second_slc
-            if len(self._src_data.shape) != len(_first):
-                _first, _second = [], []
-                j = 0  # trailing index
-                it = izip_longest(count(), native_first_slc, native_second_slc,
-                                  fillvalue=None)
-                for i, a, b in islice(it, None, len(first_slc)):
-                    if self._src_data.shape[j] == self.native_shape[i]:
-                        _first.append(a)
-                        _second.append(b)
-                        j += 1
+            # fields and the slices have all spatial dimensions, but the
+            # src_data may lack those of length 1
+            src_shape = list(self._src_data.shape)
+            native_shape = list(self.native_shape)
+            if src_shape != native_shape:
+                keep = []
+                for i, n in enumerate(native_shape):
+                    if len(keep) < len(src_shape) and src_shape[len(keep)] == n:
+                        keep.append(i)
+                    elif n != 1:
+                        keep = []
+                        break
+                _first = [_first[i] for i in keep]
+                _second = [_second[i] for i in keep]
 
             # ok, now cull out from the second slice
             _second = [s for s in _second if s is not None]
 
-            # only hyperslice _src_data if our slice has the right shape
-            if len(self._src_data.shape) == len(_first):
+            # only hyperslice _src_data if our slice has the right shape, and
+            # the components really are where they ought to be
+            if (len(src_shape) == len(_first) and
+                    (nr_comp is None or
+                     self._detect_layout(self._src_data) == self.layout)):
                 # do the hyper-slice
                 # these sliced have to be native b/c they're slicing the
                 # _src_data directly which means the data could be stored
@@ -1222,18 +1220,21 @@ class Field(tree.Leaf):
                         slced_dat = np.array(np.transpose(slced_dat, _t_axes))
                     else:
                         slced_dat = np.array(slced_dat.T)
+                else:
+                    slced_dat = np.array(slced_dat)
+
+                target_shape = list(crds.shape_cc if cc else crds.shape_nc)
+                if nr_comp is not None and not single_comp_slc:
+                    n_comps = len(range(*comp_slc.indices(self.nr_comps)))
+                    nr_comp = 0 if self.nr_comp == 0 else len(target_shape)
+                    target_shape.insert(nr_comp, n_comps)
+                slced_dat = slced_dat.reshape(target_shape)
 
                 # post-reshape-transform
                 if self.post_reshape_transform_func is not None:
-                    if cc:
-                        target_shape = crds.shape_cc
-                    else:
-                        target_shape = crds.shape_nc
-                    if nr_comp is not None:
-                        target_shape.insert(nr_comp, -1)
                     slced_dat = self.post_reshape_transform_func(
-                        self, crds, slced_dat.reshape(target_shape),
-                        comp_slc=comp_slc, **self.transform_func_kwargs)
+                        self, crds, slced_dat, comp_slc=comp_slc,
+                        **self.transform_func_kwargs)
 
         # fallback: either not hypersliceable, or the shapes didn't match up
         if slced_dat is None:
@@ -1248,10 +1249,10 @@ class Field(tree.Leaf):
             # use xyz slices cause self.data is guarenteed to be xyz
             slced_dat = sliceutil.get_orthogonal(self.data, slices)
 
-        if len(reduced) == len(slices) or getattr(slced_dat, 'size', 0) == 1:
+        if not isinstance(slced_dat, list) and np.size(slced_dat) == 1:
             # if we sliced the hell out of the array, just
             # return the value that's left, ndarrays have the same behavior
-            ret = slced_dat.item()
+            ret = np.asarray(slced_dat).item()
         else:
             ctx = dict(crds=crds, zyx_native=False)
             fldtype = None
diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 2bbeb21..3d2207b 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -160,7 +160,7 @@ def mhd2gse_field_vector(fld, crds, arr, comp_slc=None,
     factor = np.array([-1.0, -1.0, 1.0], dtype=arr.dtype).reshape(shp)
     if comp_slc is not None:
         tmpslc = [slice(None) if s == 1 else comp_slc for s in shp]
-        factor = factor[tmpslc]
+        factor = factor[tuple(tmpslc)]
     # print("** factor", factor.shape, factor.flatten())
     if copy_on_transform:
         if _has_numexpr:
-- 
2.43.0


From b7e9cce68f1ed13a1e3fbd06650291c714d177bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 011/131] fix: selecting from transposed hdf5 data

---
 viscid/readers/hdf5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 3e72c2d..08718d8 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -118,6 +118,11 @@ class H5pyDataWrapper(vfile.DataWrapper):
                 arr[...] = fill_arr.T
 
     def __getitem__(self, item):
+        if self.transpose:
+            # the item is meant for the transposed data
+            item = list(item) if isinstance(item, (list, tuple)) else [item]
+            item += [slice(None)] * (len(self.shape) - len(item))
+            item = tuple(item[::-1])
         item = self._inject_comp_slice(item)
         with h5py.File(self.fname, 'r') as f:
             arr = self._resolve_loc(f)[item]
-- 
2.43.0


From 7a3accad82f312d181ddf3679e0950aa2010b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 012/131] fix: flat vector fields in npz files had no length

---
 viscid/readers/vfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index f5ab7dc..d151a0b 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -56,6 +56,9 @@ class DataWrapper(object):
     def len(self):
         raise NotImplementedError()
 
+    def __len__(self):
+        return self.shape[0]
+
     def __getitem__(self, item):
         raise NotImplementedError()
 
-- 
2.43.0


From 1361ec855b4924a1abf3c601b5ecc81e11704fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 013/131] fix: unsigned and boolean fields saved to hdf5 could
 not be loaded

---
 viscid/readers/hdf5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 08718d8..d644b52 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -319,7 +319,9 @@ class FileHDF5(vfile.VFile):
 
             for name, fld in flds.items():
                 fld = fld.as_flat().T
-                dt = fld.dtype.name.rstrip("0123456789").title()
+                # names of xdmf number types
+                dt = {"f": "Float", "i": "Int", "u": "UInt",
+                      "b": "UChar"}[fld.dtype.kind]
                 precision = fld.dtype.itemsize
                 fld_dim_str = " ".join([str(l) for l in fld.shape])
                 loc = cls._FLD_GROUPS[fld.center.lower()] + '/' + name
-- 
2.43.0


From f247ba4c188e15f785d67feb9caee1b51e39a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 014/131] fix: cell centers and widths of uniform coordinates,
 and of single points

---
 viscid/coordinate.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index ca7ac86..c59eb7d 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -614,6 +614,11 @@ class StructuredCrds(Coordinates):
         crds_nc = self.get_crds_nc()
         crds_cc = self.get_crds_cc()
         for i, x_cc in enumerate(crds_cc):
+            if len(crds_nc[i]) == 1:
+                # one point becomes one cell
+                crds_nc[i] = extend_arr(x_cc, cell_fraction=0.5,
+                                        default_width=default_width)[::2]
+                continue
             crds_nc[i] = extend_arr(x_cc, default_width=default_width,
                                     width_arr=crds_nc[i])
         new_clist = [(ax, nc) for ax, nc in zip(axes, crds_nc)]
@@ -1273,7 +1278,7 @@ class UniformCrds(StructuredCrds):
         self._nc_linspace_args = _nc_linspace_args
         self._cc_linspace_args = []
         for args in _nc_linspace_args:
-            half_dx = 0.5 * (args[1] - args[0]) / max(args[2], 1)
+            half_dx = 0.5 * (args[1] - args[0]) / max(args[2] - 1, 1)
             cc_args = [args[0] + half_dx, args[1] - half_dx,
                        max(args[2] - 1, 0)]
             self._cc_linspace_args.append(cc_args)
@@ -1286,7 +1291,7 @@ class UniformCrds(StructuredCrds):
         self.shape_nc = np.array([args[2] for args in self._nc_linspace_args],
                                  dtype='int')
         self.L_nc = self.xh_nc - self.xl_nc
-        self.min_dx_nc = self.L_nc / self.shape_nc
+        self.min_dx_nc = self.L_nc / np.clip(self.shape_nc - 1, 1, None)
         self.min_dx_nc = np.ma.masked_values(self.min_dx_nc, 0.0)
 
         # cell centered things
@@ -1297,7 +1302,7 @@ class UniformCrds(StructuredCrds):
         self.shape_cc = np.array([args[2] for args in self._cc_linspace_args],
                                  dtype='int')
         self.L_cc = self.xh_cc - self.xl_cc
-        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc, 1, None)
+        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc - 1, 1, None)
 
         init_clist = [(axis, None) for axis, _ in init_clist]
         super(UniformCrds, self).__init__(init_clist, dtype=self.dtype,
@@ -1366,7 +1371,7 @@ class UniformCrds(StructuredCrds):
         """
         axes = self.axes
         xl, xh = self.get_xl(), self.get_xh()
-        dx = (xh - xl) / self.shape_nc
+        dx = (xh - xl) / np.clip(self.shape_nc - 1, 1, None)
         # FIXME: I don't think this will extend datetime64/timedelta64 axes
         dx = np.choose(np.abs(dx) > 0, [default_width, dx])
         xl -= 0.5 * dx
-- 
2.43.0


From b1bffa7498a46590e7b8ffce61a2d6343f30953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 015/131] fix: pruned meshgrid of flat vector fields

---
 viscid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 440e546..94c8e28 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1505,7 +1505,7 @@ class Field(tree.Leaf):
         crds = list(self.get_crds(axes=axes, shaped=True))
         if prune:
             poplist = []
-            for i, nxi in reversed(list(enumerate(self.shape))):
+            for i, nxi in reversed(list(enumerate(self.sshape))):
                 if nxi <= 1:
                     poplist.append(i)
                     crds.pop(i)
-- 
2.43.0


From 95e53bfed5003c36e0b161b59906a17b2e5a796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 016/131] fix: cells around two uneven points, and smallest
 steps below 1e-8

---
 viscid/coordinate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index c59eb7d..87e3b8f 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -134,7 +134,7 @@ def extend_arr(x, n=1, cell_fraction=1.0, full_arr=True, default_width=1e-5,
         width_arr = x
 
     if full_arr:
-        if len(x) > 1:
+        if len(width_arr) > 1:
             dxl = cell_fraction * (width_arr[1] - width_arr[0])
             dxh = cell_fraction * (width_arr[-1] - width_arr[-2])
         else:
@@ -1292,7 +1292,7 @@ class UniformCrds(StructuredCrds):
                                  dtype='int')
         self.L_nc = self.xh_nc - self.xl_nc
         self.min_dx_nc = self.L_nc / np.clip(self.shape_nc - 1, 1, None)
-        self.min_dx_nc = np.ma.masked_values(self.min_dx_nc, 0.0)
+        self.min_dx_nc = np.ma.masked_equal(self.min_dx_nc, 0.0)
 
         # cell centered things
         self.xl_cc = np.array([args[0] for args in self._cc_linspace_args],
@@ -1333,7 +1333,7 @@ class UniformCrds(StructuredCrds):
         """Get a minimum cell width for each axis"""
         ret = self._pull_out_axes([self.min_dx_nc, self.min_dx_cc], axes,
                                   center=center)
-        return np.ma.masked_values(ret, 0.0)
+        return np.ma.masked_equal(ret, 0.0)
 
     def get_xl(self, axes=None, center='node'):
         return self._pull_out_axes([self.xl_nc, self.xl_cc], axes,
-- 
2.43.0


From ee9bc2acc9918ea8f54a3a0f49d1f69267df10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 017/131] fix: components of converted fields are on the
 coordinates of the converted field

---
 viscid/field.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 94c8e28..e8bbdcb 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1103,7 +1103,8 @@ class Field(tree.Leaf):
         # to do any more work
         src_is_fld_list = (isinstance(self._src_data, (list, tuple)) and
                            all([isinstance(f, Field) for f in self._src_data]))
-        if self._cache is None and no_sslices and src_is_fld_list:
+        if (self._cache is None and no_sslices and src_is_fld_list and
+                self._shares_crds(self._src_data)):
             if self.post_reshape_transform_func is not None:
                 raise NotImplementedError()
             return self._src_data[comp_slc]
@@ -1272,6 +1273,20 @@ class Field(tree.Leaf):
                 ret.meta["reduced"] = reduced
         return ret
 
+    def _shares_crds(self, flds):
+        """True if all flds live on the same coordinates as self"""
+        for f in flds:
+            if not f.iscentered(self.center):
+                return False
+            if f._src_crds is self._src_crds:
+                continue
+            if list(f.crds.axes) != list(self.crds.axes):
+                return False
+            if not all(np.array_equal(a, b) for a, b in
+                       zip(f.get_crds_nc(), self.get_crds_nc())):
+                return False
+        return True
+
     def forget_source(self):
         self._src_data = self.data
         self._cached_xyz_src_view = self.data
@@ -2322,7 +2337,8 @@ class VectorField(Field):
         if (self._cache is None and
             self.layout == LAYOUT_FLAT and
             isinstance(self._src_data, (list, tuple)) and
-            all([isinstance(f, Field) for f in self._src_data])):
+            all([isinstance(f, Field) for f in self._src_data]) and
+            self._shares_crds(self._src_data)):
             # if all elements are fields
             return self._src_data
 
-- 
2.43.0


From 0c914dbcff26117d928f4599582f74d014b09077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 018/131] fix: re-centering or adjusting crds of unread,
 reflected fields kept data unreflected

---
 viscid/field.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index e8bbdcb..a5a11a5 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1608,6 +1608,10 @@ class Field(tree.Leaf):
             # construct new crds
             new_crds = self._src_crds.nc2cc(default_width=default_width)
 
+            if self._src_crds.reflect_axes:
+                # new_crds are already reflected, but _src_data is not
+                return self.wrap(self.data, dict(crds=new_crds, center="cell"))
+
             # this is similar to a shell copy, but it's intimately
             # linked to self as a parent
             f = type(self)(self.name, new_crds, None, center="cell",
@@ -1654,6 +1658,10 @@ class Field(tree.Leaf):
             new_clist = self._src_crds.get_clist(center="cell")
             new_crds = type(self._src_crds)(new_clist)
 
+            if self._src_crds.reflect_axes:
+                # new_crds are already reflected, but _src_data is not
+                return self.wrap(self.data, dict(crds=new_crds, center="node"))
+
             # this is similar to a shell copy, but it's intimately
             # linked to self as a parent
             f = type(self)(self.name, new_crds, None, center="node",
@@ -1792,7 +1800,11 @@ class Field(tree.Leaf):
         crd_type = crd_type.replace('nonuniform', 'AUTO')
         crd_type = crd_type.replace('uniform', 'AUTO')
         new_crds = viscid.arrays2crds(crd_arrs_nc, crd_type=crd_type, crd_names=axes)
-        ret = self.shell_copy(crds=new_crds)
+        if self._src_crds.reflect_axes:
+            # new_crds are already reflected, but _src_data is not
+            ret = self.wrap(self.data, dict(crds=new_crds))
+        else:
+            ret = self.shell_copy(crds=new_crds)
 
         return ret
 
-- 
2.43.0


From 56a073af0b7044fb1199b9395461c3d8902890a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 019/131] fix: adjust_crds with name_map renamed the axes of
 the original crds

---
 viscid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index a5a11a5..2310803 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1777,7 +1777,7 @@ class Field(tree.Leaf):
             for ax in self.crds.axes:
                 adjustments[ax] = adj
 
-        axes = self.crds.axes
+        axes = list(self.crds.axes)
         crd_arrs_nc = self.get_crds_nc()
         # crd_arrs_cc = self.get_crds_cc()
 
-- 
2.43.0


From 43d44e39e16bb67cfbd220f0c7921e874482ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 020/131] fix: atleast_3d of interlaced and of natively ordered
 fields

---
 viscid/field.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 2310803..5fdeaa5 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1717,14 +1717,22 @@ class Field(tree.Leaf):
             newcrds = self.crds.atleast_3d(xl, xh, cc=_cc)
             ctx = {'crds': newcrds}
 
-            if self.is_loaded:
+            # only the plainest of _src_data can be understood with newcrds
+            needs_load = (1 in self.sshape or
+                          self.meta.get("zyx_native", False) or
+                          self._src_crds.reflect_axes or
+                          self.post_reshape_transform_func is not None or
+                          self.deep_meta["force_layout"] != LAYOUT_DEFAULT or
+                          isinstance(self._src_data, (list, tuple)))
+            if self.is_loaded or needs_load:
                 if _cc:
                     new_shape = newcrds.shape_cc
                 else:
                     new_shape = newcrds.shape_nc
                 if self.nr_comps:
                     new_shape = list(new_shape)
-                    new_shape.insert(self.nr_comp, self.nr_comps)
+                    nr_comp = 0 if self.nr_comp == 0 else len(new_shape)
+                    new_shape.insert(nr_comp, self.nr_comps)
 
                 return self.wrap(self.data.reshape(new_shape), context=ctx)
             else:
-- 
2.43.0


From c8afd0f255e654554707118fa6717017f39adba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 021/131] fix: temporal datasets resolve deferred steps before
 looking in them

---
 viscid/dataset.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 3dfd009..13e685f 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -173,6 +173,12 @@ class DeferredChild(object):
             self.parents[0].prepare_child(ret)
         return ret
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, exc_type, value, traceback):
+        return None
+
     def clear_cache(self):
         pass
 
@@ -331,10 +337,16 @@ class Dataset(tree.Node):
         frame = frame[col0 + list(set(frame.columns) - set(col0))]
         return frame
 
+    def _get_active_child(self):
+        """get the active child, deferred children are resolved"""
+        if self.active_child is not None:
+            self.active_child = self.active_child.resolve()
+        return self.active_child
+
     def iter_fields(self, time=None, fld_names=None):
         """ generator for fields in the active dataset,
         this will recurse down to a grid """
-        child = self.active_child
+        child = self._get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -345,7 +357,7 @@ class Dataset(tree.Node):
     def iter_field_items(self, time=None, fld_names=None):
         """ generator for (name, field) in the active dataset,
         this will recurse down to a grid """
-        child = self.active_child
+        child = self._get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -355,7 +367,7 @@ class Dataset(tree.Node):
 
     def field_dict(self, time=None, fld_names=None, **kwargs):
         """ fields as dict of {name: field} """
-        child = self.active_child
+        child = self._get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -386,7 +398,7 @@ class Dataset(tree.Node):
 
     def get_field(self, fldname, time=None, slc=Ellipsis):
         """ recurse down active children to get a field """
-        child = self.active_child
+        child = self._get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -414,7 +426,7 @@ class Dataset(tree.Node):
         if item in self.children:
             return self.get_child(item)
         elif self.active_child is not None:
-            return self.active_child[item]
+            return self._get_active_child()[item]
         else:
             raise KeyError()
 
@@ -437,7 +449,7 @@ class Dataset(tree.Node):
         if item in self.children:
             return True
         # FIXME: this might cause a bug somewhere someday
-        if item in self.active_child:
+        if item in self._get_active_child():
             return True
         return False
 
@@ -643,7 +655,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self._get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -657,7 +669,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self._get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -670,7 +682,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self._get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -696,7 +708,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self._get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -738,7 +750,7 @@ class DatasetTemporal(Dataset):
                     return False
             except ValueError:
                 pass
-        return item in self.active_child
+        return item in self._get_active_child()
 
     def iter_resolved_children(self):
         return (child[1].resolve() for child in self.children)
-- 
2.43.0


From 56a866d8f33d1f5ffd1c904de95cf0cd36fff3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 022/131] fix: divmod, and operators between fields of
 different layouts

---
 viscid/field.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 5fdeaa5..325f129 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1936,9 +1936,19 @@ class Field(tree.Leaf):
     def __array_wrap__(self, out_arr, context=None):  # pylint: disable=W0613
         return self.wrap(out_arr)
 
+    def _wrap_all(self, arrs, other=None):
+        """wrap the results of operations that give several arrays"""
+        if arrs is NotImplemented:
+            return NotImplemented
+        return tuple(self.wrap(arr, other=other) for arr in arrs)
+
     def _ow(self, other):
         # hack because Fields don't broadcast correctly after a ufunc?
         try:
+            if isinstance(other, VectorField) and not self.nr_comps:
+                # scalar fields broadcast with flat vector fields
+                if other.layout == LAYOUT_INTERLACED:
+                    return np.moveaxis(other.__array__(), -1, 0)
             return other.__array__()
         except AttributeError:
             return other
@@ -1958,7 +1968,7 @@ class Field(tree.Leaf):
     def __mod__(self, other):
         return self.wrap(self.data.__mod__(self._ow(other)), other=other)
     def __divmod__(self, other):
-        return self.wrap(self.data.__divmod__(self._ow(other)), other=other)
+        return self._wrap_all(self.data.__divmod__(self._ow(other)), other=other)
     def __pow__(self, other):
         return self.wrap(self.data.__pow__(self._ow(other)), other=other)
     def __lshift__(self, other):
@@ -1987,7 +1997,7 @@ class Field(tree.Leaf):
     def __rmod__(self, other):
         return self.wrap(self.data.__rmod__(self._ow(other)), other=other)
     def __rdivmod__(self, other):
-        return self.wrap(self.data.__rdivmod__(self._ow(other)), other=other)
+        return self._wrap_all(self.data.__rdivmod__(self._ow(other)), other=other)
     def __rpow__(self, other):
         return self.wrap(self.data.__rpow__(self._ow(other)), other=other)
 
@@ -2415,6 +2425,11 @@ class VectorField(Field):
                     return other.__array__()[..., np.newaxis]
                 elif self.layout == 'flat':
                     return other.__array__()[np.newaxis, ...]
+            elif isinstance(other, VectorField):
+                if self.layout == 'interlaced' and other.layout == 'flat':
+                    return np.moveaxis(other.__array__(), 0, -1)
+                elif self.layout == 'flat' and other.layout == 'interlaced':
+                    return np.moveaxis(other.__array__(), -1, 0)
             return other.__array__()
         except AttributeError:
             return other
-- 
2.43.0


From 5cd8a512619acf55b49a08e967ce3ffc6efc4403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 023/131] fix: reductions of vector fields, and along negative
 axes

---
 viscid/field.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 325f129..0dd0d9a 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1846,7 +1846,8 @@ class Field(tree.Leaf):
         to the constructor. The return is just a number if arr is a
         1 element ndarray, this is for ufuncs that reduce to a scalar """
 
-        if self.defer_wrapping and hasattr(other, "wrap"):
+        if (self.defer_wrapping and hasattr(other, "wrap") and
+                np.shape(arr) != tuple(self.shape)):
             return other.wrap(arr, context=context, fldtype=fldtype,
                               npkwargs=npkwargs)
 
@@ -1875,11 +1876,16 @@ class Field(tree.Leaf):
         if npkwargs:
             axis = npkwargs.get('axis', None)
             if axis is not None:
+                if axis < 0:
+                    axis += len(self.shape)
                 if self.nr_comps > 0 and axis == self.nr_comp:
                     # reducing vector -> scalar, no need to play with crds
                     pass
                 else:
-                    reduce_axis = crds.axes[axis]
+                    crd_axis = axis
+                    if self.nr_comps > 0 and axis > self.nr_comp:
+                        crd_axis -= 1
+                    reduce_axis = crds.axes[crd_axis]
                     crd_slc = "{0}=0".format(reduce_axis)
                     default_keepdims = len(self.shape) == len(crds.shape)
                     iscc = self.iscentered('cell')
@@ -1887,7 +1893,7 @@ class Field(tree.Leaf):
                     if npkwargs.get("keepdims", default_keepdims):
                         crds = self.crds.slice_keep(crd_slc, cc=iscc)
                     else:
-                        crds = self.crds.slice_reduce(crd_slc, cc=iscc)
+                        crds = self.crds.slice(crd_slc, cc=iscc)
                     defer_wrapping = True
 
         # little hack for broadcasting vectors and scalars together
@@ -1916,6 +1922,7 @@ class Field(tree.Leaf):
         fld = fldtype(name, crds, arr, time=time, center=center,
                       meta=self.meta, deep_meta=context, parents=[self],
                       zyx_native=False, pretty_name=pretty_name)
+        fld.defer_wrapping = defer_wrapping
         # if the operation reduced a vector to something with 1 component,
         # then turn the result into a ScalarField
         if fld.nr_comps == 1:
-- 
2.43.0


From 54ee541eb7fc9a13f8b71790ee5b9e200aec935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 024/131] fix: argsort, cumsum, cumprod and partition of fields

---
 viscid/field.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 0dd0d9a..0b71293 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2067,7 +2067,7 @@ class Field(tree.Leaf):
         return self.data.argpartition(**kwargs)
     def argsort(self, axis=-1, kind='quicksort', order=None, **kwargs):
         kwargs.update(axis=axis, kind=kind, order=order)
-        return self.wrap(self.data.argsort(**kwargs), npkwargs=kwargs)
+        return self.wrap(self.data.argsort(**kwargs))
     def clip(self, min=None, max=None, out=None, **kwargs):
         kwargs.update(min=min, max=max, out=out)
         return self.wrap(self.data.clip(**kwargs), npkwargs=kwargs)
@@ -2075,12 +2075,12 @@ class Field(tree.Leaf):
         return self.wrap(self.data.conj(**kwargs), npkwargs=kwargs)
     def conjugate(self, **kwargs):
         return self.wrap(self.data.conjugate(**kwargs), npkwargs=kwargs)
-    def cumprod(self, axis=None, dtype=None, order=None, **kwargs):
-        kwargs.update(axis=axis, dtype=dtype, order=order)
-        return self.wrap(self.data.cumprod(**kwargs), npkwargs=kwargs)
-    def cumsum(self, axis=None, dtype=None, order=None, **kwargs):
-        kwargs.update(axis=axis, dtype=dtype, order=order)
-        return self.wrap(self.data.cumsum(**kwargs), npkwargs=kwargs)
+    def cumprod(self, axis=None, dtype=None, **kwargs):
+        kwargs.update(axis=axis, dtype=dtype)
+        return self.wrap(self.data.cumprod(**kwargs))
+    def cumsum(self, axis=None, dtype=None, **kwargs):
+        kwargs.update(axis=axis, dtype=dtype)
+        return self.wrap(self.data.cumsum(**kwargs))
     def max(self, **kwargs):
         return self.wrap(self.data.max(**kwargs), npkwargs=kwargs)
     def mean(self, **kwargs):
@@ -2091,7 +2091,7 @@ class Field(tree.Leaf):
         return self.data.nonzero(**kwargs)
     def partition(self, kth, axis=-1, **kwargs):
         kwargs.update(kth=kth, axis=axis)
-        return self.wrap(self.data.partition(**kwargs), npkwargs=kwargs)
+        return self.wrap(np.partition(self.data, **kwargs))
     def prod(self, **kwargs):
         return self.wrap(self.data.prod(**kwargs), npkwargs=kwargs)
     def ptp(self, axis=None, out=None, **kwargs):
-- 
2.43.0


From d6f4ec513bcbf17a26d99ad4aacc0c8c912f3309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 025/131] fix: trapz and cumtrapz along negative axes, and down
 to one value

---
 viscid/field.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 0b71293..e1b5af0 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2121,6 +2121,8 @@ class Field(tree.Leaf):
         if axis in self.crds.axes:
             axis = self.crds.axes.index(axis)
         assert isinstance(axis, (int, np.integer))
+        if axis < 0:
+            axis += self.nr_sdims
         crd_arr = self.get_crd(axis, shaped=True)
 
         try:
@@ -2140,8 +2142,15 @@ class Field(tree.Leaf):
         if self.nr_sdims > 1:
             slc = [slice(None) for _ in self.sshape]
             slc[axis] = 0
-            ret = viscid.empty_like(self[tuple(slc)])
-            ret.data = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
+            target = self[tuple(slc)]
+            ret = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
+            if isinstance(target, Field):
+                target = viscid.empty_like(target)
+                target.data = ret
+                ret = target
+            else:
+                # there is only one value left
+                ret = np.ravel(ret)[0]
         else:
             ret = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
         return ret
@@ -2168,6 +2177,8 @@ class Field(tree.Leaf):
             if axis in self.crds.axes:
                 axis = self.crds.axes.index(axis)
             assert isinstance(axis, (int, np.integer))
+            if axis < 0:
+                axis += self.nr_sdims
             crd_arr = self.get_crd(axis, shaped=True)
 
             try:
-- 
2.43.0


From 1e8c0944eeae5ec258658a22215a6e5de1a9f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 026/131] fix: selections by lists, and text slices of times
 without a step

---
 viscid/sliceutil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index ea88a0c..a4b853a 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -360,6 +360,7 @@ def standardize_value(sel, bool_argwhere=False):
         _warn_deprecated_float(sel)
         sel = 1j * sel
     elif isinstance(sel, (list, np.ndarray)):
+        sel = np.asarray(sel)
         assert len(sel.shape) == 1
         assert isinstance(sel[0], (int, bool, np.integer, np.complex,
                                    np.complexfloating, np.bool_))
@@ -780,6 +781,9 @@ def sel2values(arr, sel, epoch=None, tdunit='s'):
 
     std_sel = standardize_sel(sel)
 
+    if isinstance(std_sel, slice) and std_sel.step is None:
+        std_sel = slice(std_sel.start, std_sel.stop, 1)
+
     if isinstance(std_sel, slice):
         if std_sel.start is None or hasattr(std_sel.start, '__index__'):
             if arr is None:
-- 
2.43.0


From aa782f0e35d78d0b6feef262accd6e5475e83a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 027/131] fix: integer fields in interpolation and streamlines

---
 viscid/cython/cyamr.pyx   | 2 +-
 viscid/cython/cyfield.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 4de6038..2649929 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -117,7 +117,7 @@ cdef make_cyamrfield(vfield):
         amrfld = _init_cyamrfield(AMRField_I4_Crd_F8(), vfield, 'f8')
     elif fld_dtype == np.dtype('i8'):
         amrfld = _init_cyamrfield(AMRField_I8_Crd_F8(), vfield, 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         amrfld = _init_cyamrfield(AMRField_F4_Crd_F4(), vfield, 'f4')
     elif fld_dtype == np.dtype('f8'):
         amrfld = _init_cyamrfield(AMRField_F8_Crd_F8(), vfield, 'f8')
diff --git a/viscid/cython/cyfield.pyx b/viscid/cython/cyfield.pyx
index e8ca83a..822635b 100644
--- a/viscid/cython/cyfield.pyx
+++ b/viscid/cython/cyfield.pyx
@@ -121,7 +121,7 @@ cdef make_cyfield(vfield):
         fld = _init_cyfield(Field_I4_Crd_F8(), vfield, 'i4', 'f8')
     elif fld_dtype == np.dtype('i8'):
         fld = _init_cyfield(Field_I8_Crd_F8(), vfield, 'i8', 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         fld = _init_cyfield(Field_F4_Crd_F4(), vfield, 'f4', 'f4')
     elif fld_dtype == np.dtype('f8'):
         fld = _init_cyfield(Field_F8_Crd_F8(), vfield, 'f8', 'f8')
-- 
2.43.0


From 041d448a1165824082a43e4e3bf2d2321101202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 028/131] fix: interpolation far outside of a field, and
 between patches of different sizes

---
 viscid/cython/cycalc.pyx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index 76c2f28..135d227 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -259,12 +259,22 @@ cdef inline int closest_preceeding_ind(FusedField fld, int m, int d, real_t valu
     cdef int n = fld.n[d]
     cdef int startidx = cached_idx3[d]  # using fld.cached_ind is not threadsafe
 
+    # the cached index may come from a larger patch
+    if startidx > n - 1:
+        startidx = n - 1
+
     if n == 1:
         ind = 0
     elif fld.uniform_crds:
         frac = (value - fld.xl[m, d]) / (fld.L[m, d])
-        i = <int> floor((fld.nm1[d]) * frac)
-        ind = int_min(int_max(i, 0), fld.nm2[d])
+        # far away values don't fit into an int
+        if frac >= 1.0:
+            ind = fld.nm2[d]
+        elif frac > 0.0:
+            i = <int> floor((fld.nm1[d]) * frac)
+            ind = int_min(int_max(i, 0), fld.nm2[d])
+        else:
+            ind = 0
     else:
         found_ind = 0
         if fld.crds[m, d, startidx] <= value:
@@ -292,7 +302,7 @@ cdef inline int closest_ind(FusedField fld, int m, int d, real_t value,
                             int cached_idx3[3]) nogil except -1:
     cdef double d1, d2
     cdef int preceeding_ind = closest_preceeding_ind(fld, m, d, value, cached_idx3)
-    if preceeding_ind == fld.n[d] - 1:
+    if preceeding_ind == fld.n[d] - 1 or value >= fld.crds[m, d, fld.n[d] - 1]:
         return fld.n[d] - 1
     else:
         d1 = fabs(fld.crds[m, d, preceeding_ind] - value)
-- 
2.43.0


From d482c3020b2ae741fa1a7bd196335d0dcc5c28c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 029/131] fix: points on the edge of patches belong to the same
 patch whatever came before

---
 viscid/cython/cyamr.pyx | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 2649929..64d9410 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -17,7 +17,7 @@ from viscid.cython.cyamr cimport *
 from viscid.cython.cyfield cimport MAX_FLOAT, real_t
 from viscid.cython.cyfield cimport CyField, FusedField, make_cyfield
 from viscid.cython.misc_inlines cimport real_min, real_max
-from viscid.cython.misc_inlines cimport isclose, less_close
+from viscid.cython.misc_inlines cimport isclose, less_close, greater_close
 from viscid.cython.misc_inlines cimport less_not_close, greater_not_close
 
 def discover_neighbors(skel):
@@ -175,26 +175,28 @@ cdef inline int _contains_patch(FusedAMRField amrfld, int ipatch, real_t x[3]):
             return 0
     return 1
 
+cdef inline int _inside_patch(FusedAMRField amrfld, int ipatch, real_t x[3]):
+    """True if x is in patch ipatch, and not at its edge"""
+    cdef int i
+    for i in range(3):
+        if (less_close(x[i], amrfld.xl[ipatch, i]) or
+            greater_close(x[i], amrfld.xh[ipatch, i])):
+            return 0
+    return 1
+
 cdef CyField activate_patch(FusedAMRField amrfld, real_t x[3]):
-    cdef int active_idx, j, k, ineighbor, closest
+    cdef int active_idx, j, k, closest
     cdef real_t rsq, closest_rsq
 
     if amrfld.nr_patches == 1:
         return amrfld.active_patch
     else:
         active_idx = amrfld.active_patch_index
-        if _contains_patch[FusedAMRField, real_t](amrfld, active_idx, x):
+        if _inside_patch[FusedAMRField, real_t](amrfld, active_idx, x):
             return amrfld.active_patch
 
-        # search neighbors of the current active patch
-        for ineighbor in range(amrfld.nr_neighbors[active_idx]):
-            j = amrfld.neighbors[active_idx, ineighbor]
-            if _contains_patch[FusedAMRField, real_t](amrfld, j, x):
-                amrfld.active_patch = amrfld.patches[j]
-                amrfld.active_patch_index = j
-                return amrfld.active_patch
-
-        # search all patches
+        # search all patches, the first one gets the points shared by several
+        # patches, no matter which patch was active before
         for j in range(amrfld.nr_patches):
             if _contains_patch[FusedAMRField, real_t](amrfld, j, x):
                 amrfld.active_patch = amrfld.patches[j]
-- 
2.43.0


From 0a4b8bb667246b0df3760b7586905144503c6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 030/131] fix: streamlines work again after a call that failed

---
 viscid/cython/streamline.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index e3fb67a..014f26e 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -264,10 +264,12 @@ def calc_streamlines(vfield, seed, nr_procs=1, force_subprocess=False,
         raise RuntimeError("Another process is doing streamlines in this "
                            "global memory space")
     _global_fld = fld
-    grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
-    r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
-                     threads=threads, force_subprocess=force_subprocess)
-    _global_fld = None
+    try:
+        grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
+        r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
+                         threads=threads, force_subprocess=force_subprocess)
+    finally:
+        _global_fld = None
 
     # rearrange the output to be the exact same as if we just called
     # _py_streamline straight up (like for nr_procs == 1)
-- 
2.43.0


From 94410e022a2710e48ad57c03984b489afa414105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 031/131] fix: length and time of streamlines that stop at
 max_length or max_t

---
 viscid/cython/streamline.pyx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index 014f26e..8b3d7ef 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -35,7 +35,7 @@ from viscid.compat import izip
 ###########
 # cimports
 cimport cython
-from libc.math cimport fabs, NAN
+from libc.math cimport fabs, sqrt, NAN
 from libc.time cimport time_t, time, clock_t, clock, CLOCKS_PER_SEC
 cimport numpy as cnp
 
@@ -383,7 +383,7 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
         real_t stream_length
         real_t stream_t
         int d  # direction of streamline 1 | -1
-        real_t abs_ds, pre_ds
+        real_t abs_ds
         real_t ds
         real_t abs_dt
         real_t dt
@@ -541,7 +541,6 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
                 done = _C_END_NONE
                 while 0 <= it and it < maxit2:
                     nr_segs += 1
-                    pre_ds = fabs(ds)
 
                     if amrfld.nr_patches > 1:
                         # IMPORTANT: for AMR fields, this with gil block will
@@ -560,14 +559,17 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
                     s0[1] = s[1]
                     s0[2] = s[2]
 
+                    # integrators add the time of this step to dt
+                    dt = 0.0
+
                     ret = integrate_func(patch, s, &ds, dt_ptr,
                                          max_error, smallest_ds, largest_ds,
                                          vscale, cached_idx3)
 
-                    if fabs(ds) >= pre_ds:
-                        abs_ds = pre_ds
-                    else:
-                        abs_ds = fabs(ds)
+                    # adaptive methods may have taken a shorter step than asked
+                    # for, and ds is already the size of the next step
+                    abs_ds = sqrt((s[0] - s0[0])**2 + (s[1] - s0[1])**2 +
+                                  (s[2] - s0[2])**2)
 
                     if max_t > 0.0:
                         abs_dt = fabs(dt)
-- 
2.43.0


From 8e24ce5f9255efc7859a35e19354d1fc5ac132bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 032/131] fix: chunks of a given size

---
 viscid/parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 0d146cd..1fb0eb7 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -80,7 +80,7 @@ def chunk_list(seq, nchunks, size=None):
     nel = len(seq)
 
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     ret = chunk_slices(nel, nchunks)
     for i in range(nchunks):
@@ -111,7 +111,7 @@ def chunk_slices(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
@@ -169,7 +169,7 @@ def chunk_sizes(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
-- 
2.43.0


From 527d5efd93cb38caac323fdc3e3a283e90028015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 033/131] fix: parallel.map leaves a pool it was given open

---
 viscid/parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 1fb0eb7..c233397 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -223,7 +223,8 @@ def map(nr_procs, func, args_iter, args_kw=None, timeout=1e8,
         ret = r.get(int(timeout))
         # in principle this join should return almost immediately since
         # we already called r.get
-        p.join()
+        if pool is None:
+            p.join()
 
     return ret
 
-- 
2.43.0


From 5db67f353867c11cf37beea8e1c5daa0f3627331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 034/131] fix: arithmetic of patches with numpy scalars, in
 place, and divmod; reductions of patches of different sizes

---
 viscid/amr_field.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 511c0fc..c20586d 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -60,6 +60,8 @@ class AMRField(object):
     python will not send those through __getattr__ or __getattribute__.
     """
     _TYPE = "amr"
+    # so that ndarray + AMRField goes through AMRField.__radd__, and so on
+    __array_priority__ = 1.0
     skeleton = None
     patches = None
     nr_patches = None
@@ -297,12 +299,20 @@ class AMRField(object):
                     other[j] = arg
             lst[i] = getattr(patch, attrname)(*other, **kwargs)
 
-        if np.asarray(lst[0]).size == 1:
-            # operation reduced to scalar
-            arr = np.array(lst)
-            return getattr(arr, attrname)(**kwargs)
-        else:
+        if is_list_of_fields(lst):
             return AMRField(lst, self.skeleton)
+        elif any(l is NotImplemented for l in lst):
+            # i.e., let a += b fall back to a = a + b like it does for Fields
+            return NotImplemented
+        elif isinstance(lst[0], tuple):
+            # i.e., divmod
+            return tuple(AMRField(list(l), self.skeleton) for l in zip(*lst))
+        else:
+            # operation reduced to scalar, so reduce the values of all patches
+            # since they don't need to have the same size
+            kwargs['axis'] = None
+            arr = np.concatenate([np.ravel(p.data) for p in self.patches])
+            return getattr(arr, attrname)(**kwargs)
 
     # TODO: as of numpy 1.10, this will be called on ufuncs... this
     #       will help some of the FIXMEs in __array__
-- 
2.43.0


From 65fa669a6c46d024eedb8364b40e353b53ce3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 035/131] fix: slices of patches at their upper end, and where
 a patch has no cell

---
 viscid/amr_field.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index c20586d..8ceadc1 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -148,8 +148,8 @@ class AMRField(object):
             np.seterr(invalid='ignore')
             atol = 100 * np.finfo(xl_nc.dtype).eps
             if (not np.any(np.logical_or(xl_nc - atol > extent[1],
-                                         xh_nc <= extent[0]))):
-                if np.any(np.isclose(fld.crds.xh_nc, extent[0], atol=atol)):
+                                         xh_nc + atol < extent[0]))):
+                if np.any(np.isclose(xh_nc, extent[0], atol=atol)):
                     maybe.append(i)
                 else:
                     inds.append(i)
@@ -176,6 +176,22 @@ class AMRField(object):
 
         return flds, inds
 
+    @staticmethod
+    def _selects_nothing(fld, selection):
+        """True if a patch touches selection, but no data is selected"""
+        # pylint: disable=protected-access
+        sel_list, _ = fld._prepare_slice(selection)
+        slices = fld._src_crds.make_slice(tuple(sel_list),
+                                          cc=not fld.iscentered("Node"))[0]
+        lens = iter(fld.sshape)
+        for slc in slices:
+            if slc is None:
+                continue
+            n = next(lens)
+            if isinstance(slc, slice) and len(range(*slc.indices(n))) == 0:
+                return True
+        return False
+
     def _finalize_amr_slice(self, fld_lst):  # pylint: disable=no-self-use
         skeleton = None  # FIXME
         for fld in fld_lst:
@@ -226,21 +242,24 @@ class AMRField(object):
         fld_lst, _ = self._prepare_amr_slice(selection)
         if not isinstance(fld_lst, list):
             return fld_lst.slice(selection)
-        fld_lst = [fld.slice(selection) for fld in fld_lst]
+        fld_lst = [fld.slice(selection) for fld in fld_lst
+                   if not self._selects_nothing(fld, selection)]
         return self._finalize_amr_slice(fld_lst)
 
     def slice_reduce(self, selection):
         fld_lst, _ = self._prepare_amr_slice(selection)
         if not isinstance(fld_lst, list):
             return fld_lst.slice_reduce(selection)
-        fld_lst = [fld.slice_reduce(selection) for fld in fld_lst]
+        fld_lst = [fld.slice_reduce(selection) for fld in fld_lst
+                   if not self._selects_nothing(fld, selection)]
         return self._finalize_amr_slice(fld_lst)
 
     def slice_and_keep(self, selection):
         fld_lst, _ = self._prepare_amr_slice(selection)
         if not isinstance(fld_lst, list):
             return fld_lst.slice_and_keep(selection)
-        fld_lst = [fld.slice_and_keep(selection) for fld in fld_lst]
+        fld_lst = [fld.slice_and_keep(selection) for fld in fld_lst
+                   if not self._selects_nothing(fld, selection)]
         return self._finalize_amr_slice(fld_lst)
 
     def interpolated_slice(self, selection):
-- 
2.43.0


From 0162d6252b1d025c5853dcad562995d940c251e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 036/131] fix: a skeleton is only reused for patches with the
 same upper ends

---
 viscid/amr_grid.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/viscid/amr_grid.py b/viscid/amr_grid.py
index d47079c..894b8a8 100644
--- a/viscid/amr_grid.py
+++ b/viscid/amr_grid.py
@@ -137,9 +137,8 @@ class AMRSkeleton(object):
                 return False
             if not np.allclose(my_patch.xl, grid.crds.xl_nc):
                 return False
-            # if n and xl match... do i need to check xh?
-            # if not np.allclose(my_patch.xh, grid.crds.xh_nc):
-            #     return False
+            if not np.allclose(my_patch.xh, grid.crds.xh_nc):
+                return False
         # t1 = default_timer()
         # print(">> compatable   {0:g} secs".format(t1 - t0))
         return True
-- 
2.43.0


From e9a8e76f48746e8bba228c4bca31c78fa5167a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 037/131] fix: magnitude native and normalize numexpr

---
 viscid/calculator/calc.py   | 4 ++--
 viscid/calculator/necalc.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 879708f..48a57c4 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -354,13 +354,13 @@ def convective_deriv(a, b=None, bnd=True):
 # native versions  NOTE: magnitude_native is really only for benchmarking
 def _magnitude_native(fld):
     vx, vy, vz = fld.component_views()
-    mag = np.empty_like(vx)
+    mag = np.empty(vx.shape, dtype=np.sqrt(vx[:1, :1, :1]).dtype)
     for i in range(mag.shape[0]):
         for j in range(mag.shape[1]):
             for k in range(mag.shape[2]):
                 mag[i, j, k] = np.sqrt(vx[i, j, k]**2 + vy[i, j, k]**2 +
                                        vz[i, j, k]**2)
-    return vx.wrap(mag, context={"name": "{0} magnitude".format(fld.name)})
+    return fld.wrap(mag, fldtype="Scalar")
 
 magnitude.add_implementation("native", _magnitude_native)
 
diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index 8ce136b..31faaa8 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -154,7 +154,9 @@ def grad(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    g = viscid.zeros(fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1]),
+                     center=fld.center, nr_comps=3)
+    g.time = fld.time
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
-- 
2.43.0


From 09fdb8a84bdb43dceec167d20c2cddf7771f7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 038/131] fix: gradients of node centered fields, their time,
 and of a single place

---
 viscid/calculator/calc.py   | 14 ++++++++------
 viscid/calculator/necalc.py | 12 +++++++-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 48a57c4..26eb12e 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -226,7 +226,9 @@ def _grad_np(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    g = viscid.zeros(fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1]),
+                     center=fld.center, nr_comps=3)
+    g.time = fld.time
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
@@ -236,9 +238,9 @@ def _grad_np(fld, bnd=True):
     vyp, vym = v[1:-1, 2:  , 1:-1], v[1:-1,  :-2, 1:-1]  # pylint: disable=bad-whitespace
     vzp, vzm = v[1:-1, 1:-1, 2:  ], v[1:-1, 1:-1,  :-2]  # pylint: disable=bad-whitespace
 
-    g['x'].data[...] = (vxp - vxm) / (xp - xm)
-    g['y'].data[...] = (vyp - vym) / (yp - ym)
-    g['z'].data[...] = (vzp - vzm) / (zp - zm)
+    g['x'] = (vxp - vxm) / (xp - xm)
+    g['y'] = (vyp - vym) / (yp - ym)
+    g['z'] = (vzp - vzm) / (zp - zm)
     return g
 grad.add_implementation("numpy", _grad_np)
 
@@ -343,10 +345,10 @@ def convective_deriv(a, b=None, bnd=True):
             g = grad(b[jcmp], bnd=False)
             for i, icmp in enumerate('xyz'):
                 diBj[i][j] = g[icmp]
-        dest = viscid.zeros(a.crds, nr_comps=3)
+        dest = viscid.zeros(a.crds, center=a.center, nr_comps=3)
         for i, icmp in enumerate('xyz'):
             for j, jcmp in enumerate('xyz'):
-                dest[jcmp][...] += a[icmp] * diBj[i][j]
+                dest[jcmp] = dest[jcmp] + a[icmp] * diBj[i][j]
     else:
         dest = dot(a, grad(b, bnd=False))
     return dest
diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index 31faaa8..022e853 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -129,9 +129,11 @@ def project(fld_a, fld_b):
 
 def normalize(fld_a):
     """ normalize a vector field """
-    a = fld_a.as_flat().data
+    a = fld_a.data  # pylint: disable=unused-variable
     ax, ay, az = fld_a.component_views()  # pylint: disable=W0612
-    normed = ne.evaluate("a / sqrt((ax**2) + (ay**2) + (az**2))")
+    mag = np.sqrt(np.asarray(ne.evaluate("(ax**2) + (ay**2) + (az**2)")))
+    mag = np.expand_dims(mag, fld_a.nr_comp)
+    normed = ne.evaluate("a / mag")
     return fld_a.wrap(normed, fldtype="Vector")
 
 def grad(fld, bnd=True):
@@ -166,9 +168,9 @@ def grad(fld, bnd=True):
     vyp, vym = v[1:-1, 2:  , 1:-1], v[1:-1,  :-2, 1:-1]  # pylint: disable=bad-whitespace
     vzp, vzm = v[1:-1, 1:-1, 2:  ], v[1:-1, 1:-1,  :-2]  # pylint: disable=bad-whitespace
 
-    g['x'].data[...] = ne.evaluate("(vxp-vxm)/(xp-xm)")
-    g['y'].data[...] = ne.evaluate("(vyp-vym)/(yp-ym)")
-    g['z'].data[...] = ne.evaluate("(vzp-vzm)/(zp-zm)")
+    g['x'] = ne.evaluate("(vxp-vxm)/(xp-xm)")
+    g['y'] = ne.evaluate("(vyp-vym)/(yp-ym)")
+    g['z'] = ne.evaluate("(vzp-vzm)/(zp-zm)")
     return g
 
 def div(fld, bnd=True):
-- 
2.43.0


From cc9928aa30d601123407df1203051f401dba80ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 039/131] fix: resample_lines

---
 viscid/calculator/calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 26eb12e..ca7e9bd 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -395,9 +395,10 @@ def resample_lines(lines, factor=1, kind="linear"):
     elif factor == 1:
         return lines
 
+    lines = list(lines)
     for i, line in enumerate(lines):
         nr_sdims, nold = line.shape
-        nnew = np.ceil(factor * (nold - 1)) + 1
+        nnew = int(np.ceil(factor * (nold - 1))) + 1
         newline = np.empty((nr_sdims, nnew), dtype=line.dtype)
         sold = np.linspace(0, 1, nold)
         snew = np.linspace(0, 1, nnew)
-- 
2.43.0


From 7f8cd31e52f42b555bb670d36fd9470e0ff52684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 040/131] fix: integrals and projections along several lines,
 short lines, and repeated points

---
 viscid/calculator/calc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index ca7e9bd..2cfad1d 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -427,12 +427,13 @@ def project_along_line(line, fld, interp_kind='trilin'):
             line
         interp_kind (str): which interpolation to use, const or trilin
     """
-    fld_on_verts = viscid.interp(fld, line, kind=interp_kind)
+    fld_on_verts = viscid.interp(fld, line, kind=interp_kind, wrap=False)
     # FIXME: here in lies a bug, which axis am I actually summing over?
     #        maybe that's not the bug, but there must be something wrong
     #        here as indicated by kris_scripts/work/iono_xi_mismatch/analytic_pot.py
     dsvec = line[:, 2:] - line[:, :-2]
-    dsvec = np.concatenate([dsvec[:, 0:1], dsvec, dsvec[:, -2:-1]], axis=1)
+    dsvec = np.concatenate([line[:, 1:2] - line[:, 0:1], dsvec,
+                            line[:, -1:] - line[:, -2:-1]], axis=1)
     dsvec = dsvec / np.linalg.norm(dsvec, axis=0)
     return np.sum(fld_on_verts * dsvec.T, axis=1)
 
@@ -483,7 +484,7 @@ def integrate_along_lines(lines, fld, reduction="dot", mask_func=None,
             reduction = reduction.strip().lower()
             if reduction == "dot":
                 dsvec = lines[i][:, 1:] - lines[i][:, :-1]
-                dsvec = dsvec / np.linalg.norm(dsvec, axis=0)
+                dsvec = dsvec / np.where(ds > 0.0, ds, 1.0)
                 values = 0.5 * (fld_on_verts[start:stop - 1, :] +
                                 fld_on_verts[start + 1:stop, :])
                 values = values * dsvec.T
@@ -492,7 +493,7 @@ def integrate_along_lines(lines, fld, reduction="dot", mask_func=None,
                 values = np.sum(values, axis=1)
             elif reduction in ["mag", "magnitude", "norm"]:
                 mag = np.linalg.norm(fld_on_verts[start:stop], axis=1)
-                values = 0.5 * (mag[start:stop - 1] + mag[start + 1:stop])
+                values = 0.5 * (mag[:-1] + mag[1:])
             else:
                 raise ValueError("Unknown reduction: {0}".format(reduction))
         else:
-- 
2.43.0


From c693b66d06cb3ac142ccc5bcb312b2e0a985f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 041/131] fix: derivatives at a point

---
 viscid/calculator/calc.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 2cfad1d..337eec1 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -16,12 +16,6 @@ from viscid import verror
 from viscid import seed
 from viscid.compat import izip, OrderedDict
 
-try:
-    from viscid.calculator import cycalc
-    has_cython = True
-except ImportError:
-    has_cython = False
-
 try:
     from viscid.calculator import necalc
     has_numexpr = True
@@ -527,24 +521,23 @@ def local_vector_points(B, x, y, z, dx=None, dy=None, dz=None):
           points of the bs, but this time, 0-3 -> x,y,z
         * dcrd (list): [dx, dy, dz]
     """
-    assert has_cython  # if a problem, you need to build Viscid
     assert B.iscentered("Cell")
 
-    x, y, z = [np.array(c).reshape(1, 1) for c in [x, y, z]]
+    x, y, z = [np.array(c, dtype='f8').reshape(1, 1) for c in [x, y, z]]
     crds = B.get_crds("xyz")
     inds = [0] * len(crds)
     dcrd = [0] * len(crds)
     # This makes points in xyz order
     pts = np.tile([x, y, z], 6).reshape(3, -1).T
     for i, crd, loc, d in zip(count(), crds, [x, y, z], [dx, dy, dz]):
-        inds[i] = cycalc.closest_ind(crd, loc)
+        inds[i] = min(np.argmin(np.abs(crd - loc)), len(crd) - 2)
         if d is None:
             dcrd[i] = crd[inds[i] + 1] - crd[inds[i]]
         else:
             dcrd[i] = d
         pts[2 * i + 1, i] += dcrd[i]
         pts[2 * i + 0, i] -= dcrd[i]
-    bs = cycalc.interp_trilin(B, seed.Point(pts))
+    bs = viscid.interp_trilin(B, seed.Point(pts.T), wrap=False)
     # viscid.interact(banner="in local_vector_points")
     return bs, pts, dcrd
 
@@ -635,10 +628,10 @@ def curl_at_point(A, x, y, z, dx=None, dy=None, dz=None):
     # this is confusing: In As, first index is xyz, 2nd index is xyz
     #             xi+dxi  comp      xi-dxi   comp /   (2 * dxi)
     c[0] = ((As[2 * 1 + 1, 2] - As[2 * 1 + 0, 2]) / (2.0 * dcrd[1]) -
-            (As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[2]))
-    c[1] = ((As[2 * 0 + 1, 0] - As[2 * 0 + 0, 0]) / (2.0 * dcrd[2]) -
-            (As[2 * 2 + 1, 2] - As[2 * 2 + 0, 2]) / (2.0 * dcrd[0]))
-    c[2] = ((As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[0]) -
+            (As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[2]))
+    c[1] = ((As[2 * 2 + 1, 0] - As[2 * 2 + 0, 0]) / (2.0 * dcrd[2]) -
+            (As[2 * 0 + 1, 2] - As[2 * 0 + 0, 2]) / (2.0 * dcrd[0]))
+    c[2] = ((As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[0]) -
             (As[2 * 1 + 1, 0] - As[2 * 1 + 0, 0]) / (2.0 * dcrd[1]))
     return c
 
-- 
2.43.0


From a9ab9d263190cf4c52592f34ace024ca8c73bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 042/131] fix: extend_boundaries_ndarr with the default axes

---
 viscid/calculator/calc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 337eec1..f9dcc52 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -657,6 +657,8 @@ def extend_boundaries_ndarr(arr, nl=1, nh=1, axes='all', nr_comp=None,
     Returns:
         ndarray: A new extended / padded ndarray
     """
+    if isinstance(axes, viscid.string_types) and axes == 'all':
+        axes = range(arr.ndim if nr_comp is None else arr.ndim - 1)
     if nr_comp is not None:
         axes = [ax if ax < nr_comp else ax + 1 for ax in axes]
 
-- 
2.43.0


From df204d618e9f57b0fe245b279ab8a32571d29fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 043/131] fix: averages and divergence of face and edge
 centered fields

---
 viscid/calculator/ecfc.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index b199212..2e9784c 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -121,9 +121,7 @@ def make_ecfc_field_leading(fc, trim_leading=True):
                 raise RuntimeError("I shouldn't be here")
 
         fc.resolve()  # if translating -> gse, do it once, not 4 times
-        s0vec = list(sc)
-        s0vec.insert(fc.nr_comp, slice(None))
-        prepared_fc = viscid.zeros_like(fc[s0vec])
+        prepared_fc = viscid.zeros_like(fc[tuple(sc)])
 
         prepared_fc['x'] = fc['x', sd[0][0], sd[0][1], sd[0][2]]
         prepared_fc['y'] = fc['y', sd[1][0], sd[1][1], sd[1][2]]
@@ -141,9 +139,7 @@ def fc2cc(fc, force_numpy=False, bnd=True):
     fc = make_ecfc_field_leading(fc)
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(None))
-    cc = viscid.zeros_like(fc[s0vec])
+    cc = viscid.zeros_like(fc[tuple(s0)])
     cc.center = "Cell"
 
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
@@ -181,9 +177,7 @@ def ec2cc(ec, force_numpy=False, bnd=True):
     ec = make_ecfc_field_leading(ec)
     s0, sm, sp = _prep_slices(ec)
 
-    s0vec = list(s0)
-    s0vec.insert(ec.nr_comp, slice(None))
-    cc = viscid.zeros_like(ec[s0vec])
+    cc = viscid.zeros_like(ec[tuple(s0)])
     cc.center = "Cell"
 
     ecx0, ecx1, ecx2, ecx3 = (ec['x', s0[0], sm[1], sm[2]].data,
@@ -230,21 +224,15 @@ def div_fc(fc, force_numpy=False, bnd=True):
     #        just faking it with a 0 order hold before returning
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(0, 1))
-    div_cc = viscid.zeros_like(fc[s0vec], center="cell")
+    div_cc = viscid.zeros_like(fc[tuple(['x'] + s0)], center="cell")
 
+    # for axes with a single cell, use the width of that cell
     x, y, z = fc.get_crds_nc('xyz', shaped=True)
-    if True:
-        # x, y, z = x[1:, :, :], y[:, 1:, :], z[:, :, 1:]
-        x, y, z = x[:-1, :, :], y[:, :-1, :], z[:, :, :-1]
-    else:
-        raise NotImplementedError()
-    # x, y, z = fc.get_crds_cc('xyz', shaped=True)
+    nx, ny, nz = fc.sshape
 
-    xm, xp = x[sm[0], :, :], x[sp[0], :, :]
-    ym, yp = y[:, sm[1], :], y[:, sp[1], :]
-    zm, zp = z[:, :, sm[2]], z[:, :, sp[2]]
+    xm, xp = x[:max(nx - 1, 1), :, :], x[1:max(nx, 2), :, :]
+    ym, yp = y[:, :max(ny - 1, 1), :], y[:, 1:max(ny, 2), :]
+    zm, zp = z[:, :, :max(nz - 1, 1)], z[:, :, 1:max(nz, 2)]
 
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
                   fc['x', sp[0], s0[1], s0[2]].data)
-- 
2.43.0


From 85c68e127377609a2c86de8f421b2e65402e8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 044/131] fix: axis of a rotation by half a turn in
 get_rotation_wxyz

---
 viscid/cotr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 96c388e..915b29b 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -283,7 +283,7 @@ def get_rotation_wxyz(mat, check_inverse=True, quick=True):
     # rotate `b1` and then find the angle between result (`b2`) at `b1`
     b2 = np.dot(mat, b1)
     b2 = b2 / np.linalg.norm(b2)  # minimize effect of roundoff error
-    angleB = np.rad2deg(np.arccos(np.dot(b1, b2)))
+    angleB = np.rad2deg(np.arccos(np.clip(np.dot(b1, b2), -1.0, 1.0)))
 
     # fix sign of `u` to make the rotation angle right handed, note that
     # the angle will always be positive due to range or np.arccos
-- 
2.43.0


From 4bd7176579d5d615c44a89a6d89b863bedceaa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 045/131] fix: names and identities of the heliocentric systems
 in Cotr

---
 viscid/cotr.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 915b29b..2121c25 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -352,7 +352,7 @@ class Cotr(object):
     # verify your favorite transformations and fix them or mark them as tested
     #
     GEOCENTRIC = ['gei', 'geo', 'gse', 'gsm', 'sm', 'mag', 'mhd']
-    HELIOCENTRIC = ['hea', 'hee', 'heeq']
+    HELIOCENTRIC = ['hae', 'hee', 'heeq']
     XFORM_LOOKUP = {"gei->gei": (0, ),  # identity
                     "geo->gei": (-1, ),
                     "gse->gei": (-2, ),
@@ -382,12 +382,12 @@ class Cotr(object):
                     "mhd->mag": (5, 1, -2, 6),
                     "mhd->mhd": (0, ),  # identity
                     # Heliocentric
-                    "hae->hae": (0),  # identity
-                    "hee->hae": (-11),
-                    "heeq->hae": (-12),
-                    "hee->hee": (0),  # identity
+                    "hae->hae": (0, ),  # identity
+                    "hee->hae": (-11, ),
+                    "heeq->hae": (-12, ),
+                    "hee->hee": (0, ),  # identity
                     # "heeq->hee": (0),  # <- unknown transform?
-                    "heeq->heeq": (0),  # identity
+                    "heeq->heeq": (0, ),  # identity
                    }
 
     def __init__(self, time='1967-01-01', dip_tilt=None, dip_gsm=None, rdim=3,
-- 
2.43.0


From aa61b858ad17055dc54ee7508510fc94e1ee20f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 046/131] fix: get_transform_matrix hands out its cached matrix

---
 viscid/cotr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 2121c25..ce54457 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -683,7 +683,7 @@ class Cotr(object):
             self._xform_cache[xform] = mat
             self._xform_cache[xform_rev] = mat.T
 
-        return self._xform_cache[xform]
+        return np.array(self._xform_cache[xform])
 
     def transform(self, from_system, to_system, vec):
         """Transform a vector from one system to another
-- 
2.43.0


From 3586ce78a31aa69dab4fe86010d2af9d66a7e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 047/131] fix: as_cotr of a mapping

---
 viscid/cotr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index ce54457..9d71222 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -791,6 +791,8 @@ def as_cotr(thing=None, default=_NOT_GIVEN):
         cotr = thing.__cotr__
     elif is_datetime_like(thing):
         cotr = Cotr(time=thing)
+    elif hasattr(thing, "keys"):
+        cotr = Cotr(**thing)
     else:
         try:
             cotr = thing.find_attr("__cotr__")
-- 
2.43.0


From 89c1a2a35cf84f5923fd949b90d093a59434d742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 048/131] fix: sign of the dipole in dipole_moment2cotr

---
 viscid/cotr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 9d71222..1ec7912 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -895,8 +895,9 @@ def dipole_moment2cotr(m, crd_system='gse'):
     if as_crd_system(crd_system) not in ('gse', 'mhd'):
         raise ValueError('bad crd_system: {0}'.format(crd_system))
     m = Cotr(dip_tilt=0.0, dip_gsm=0.0).transform(crd_system, 'gse', m)
-    gsm = np.rad2deg(np.arctan2(m[1], m[2]))
-    tilt = np.rad2deg(np.arctan2(m[0], np.linalg.norm(m[1:])))
+    # the angles give the direction of the north pole, which is opposite to m
+    gsm = np.rad2deg(np.arctan2(-m[1], -m[2]))
+    tilt = np.rad2deg(np.arctan2(-m[0], np.linalg.norm(m[1:])))
     return Cotr(dip_tilt=tilt, dip_gsm=gsm)
 
 
-- 
2.43.0


From dbd3057ec70e283d4897439f2607db6b9fef6788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 049/131] fix: times with many digits lose their fraction in
 as_timedelta64

---
 viscid/npdatetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index d2a6cbe..7bc62d4 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -173,7 +173,7 @@ def _as_timedelta64_scalar(time, unit=None):
     elif isinstance(time, (int, float, np.integer, np.floating)):
         orig_time, orig_flt_unit = time, flt_unit
         unit_idx = TIME_UNITS.index(flt_unit)
-        while not np.isclose(time, int(np.round(time)), rtol=1e-4, atol=1e-18):
+        while not np.isclose(time, int(np.round(time)), rtol=1e-7, atol=1e-18):
             if unit_idx <= 0:
                 raise ValueError("Floating point time {0} [{1}] is too precise "
                                  "for any time unit?".format(orig_time, orig_flt_unit))
-- 
2.43.0


From ca4bd9f7f1258e8e9fe61c2199d47c424c9ffc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 050/131] fix: as_isotime of arrays

---
 viscid/npdatetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 7bc62d4..e2ee7df 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -235,7 +235,7 @@ def as_isotime(time):
         return ret[0]
     else:
         if isinstance(time, np.ndarray):
-            return np.array(time, dtype=time.dtype)
+            return np.array(ret)
         else:
             return ret
 
-- 
2.43.0


From cd526178f9c9fa7921442c2cb96e4fe5942d0a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 051/131] fix: as_datetime of times in days gives a datetime

---
 viscid/npdatetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index e2ee7df..ace89b6 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -295,7 +295,7 @@ def as_datetime(time, unit=None):
         dt64 = as_datetime64(time, unit=unit)
     except ValueError:
         dt64 = as_datetime64(as_timedelta64(time, unit=unit))
-    return round_time(dt64, 'us').astype(datetime)
+    return round_time(dt64, 'us').astype('datetime64[us]').astype(datetime)
 
 def as_timedelta(time, unit=None, allow0=True):
     """Convert time to a Numpy ndarray of datetime.datetime objects
-- 
2.43.0


From d7c6b44af85e6365861e34d9168c148a5b871ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 052/131] fix: as_timedelta of no times

---
 viscid/npdatetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index ace89b6..e7e9e1d 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -317,7 +317,8 @@ def as_timedelta(time, unit=None, allow0=True):
     ret = round_time(time, unit='us', allow0=allow0).astype(timedelta)
     if not isinstance(ret, np.ndarray) and not hasattr(ret, "total_seconds"):
         ret = TimeDeltaCompat(ret)
-    elif isinstance(ret, np.ndarray) and not hasattr(ret[0], "total_seconds"):
+    elif (isinstance(ret, np.ndarray) and len(ret) and
+          not hasattr(ret[0], "total_seconds")):
         ret = np.array([TimeDeltaCompat(r) for r in ret])
     return ret
 
-- 
2.43.0


From 10ccdc8e2785f897d09ef3a8a18636cec7aa7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 053/131] fix: ends of linspace_datetime64

---
 viscid/npdatetime.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index e7e9e1d..04cf42d 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -348,9 +348,11 @@ def linspace_datetime64(start, stop, n, endpoint=True, unit=None):
     stop = as_datetime64(stop, unit=unit)
     start, stop = regularize_time([start, stop], most_precise=True)
 
-    fltarr = np.linspace(start.astype('i8'), stop.astype('i8'), n,
-                         endpoint=endpoint, dtype='f8')
-    return np.round(fltarr, 0).astype('i8').astype(start.dtype)
+    # interpolate the offsets since the times themselves may need more digits
+    # than a float has
+    delta = stop - start
+    fltarr = np.linspace(0, delta.astype('i8'), n, endpoint=endpoint, dtype='f8')
+    return start + np.round(fltarr, 0).astype('i8').astype(delta.dtype)
 
 def _most_precise_t_unit(tlst):
     """Find the most precise time unit from the bunch
-- 
2.43.0


From e8a2bef3961e36ddb76b5058a031ceedea2aa66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 054/131] fix: hours and days in format_time

---
 viscid/npdatetime.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 04cf42d..6b06aaf 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -683,6 +683,7 @@ def format_time(time, fmt='.02f', basetime=None):
     dttime = as_datetime(time)
     ret = ""
 
+    time_of_day = basetime is None and is_datetime_like(time)
     if basetime is None:
         basetime = as_datetime64(0.0)
 
@@ -691,18 +692,21 @@ def format_time(time, fmt='.02f', basetime=None):
 
     if fmt in ('dhms', 'dhmss', 'hms', 'hmss'):
         # These are special time-style formatters
+        secs = int(time_diff(dttime, basetime) / np.timedelta64(1, 's'))
+        days, day_secs = divmod(secs, 24 * 3600)
         if fmt.startswith('d'):
-            days = int(as_timedelta64(dttime) / np.timedelta64(1, 'D'))
+            hms = day_secs
             if days == 1:
-                days_str = '{0} day'.format(days)
+                days_str = '{0} day '.format(days)
             else:
                 days_str = '{0} days '.format(days)
         else:
+            hms = day_secs if time_of_day else secs
             days_str = ''
-        ret = datetime.strftime(dttime, days_str + '%H:%M:%S')
+        ret = "{0}{1:02d}:{2:02d}:{3:02d}".format(days_str, hms // 3600,
+                                                  hms // 60 % 60, hms % 60)
         if fmt.endswith('ss'):
-            _tt = time_diff(dttime, basetime) / np.timedelta64(1, 's')
-            ret += " ({0:06d})".format(int(_tt))
+            ret += " ({0:06d})".format(secs)
     elif '%' not in fmt:
         # if there's no % symbol, then it's probably not a strftime format,
         # so use fmt as normal string formatting of total_seconds
-- 
2.43.0


From badb84092890a928412cbf47188a2e30c75a0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 055/131] fix: format_time rounds the seconds with the fraction

---
 viscid/npdatetime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 6b06aaf..f9b6777 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -720,6 +720,12 @@ def format_time(time, fmt='.02f', basetime=None):
             msec_fmt = re.findall(r"%\.?([0-9]*)f", fmt)
             fmt = re.sub(r"%\.?([0-9]*)f", "%f", fmt)
 
+        # round to the precision asked for so that 59.96 isn't 59.0
+        if msec_fmt:
+            prec = max(min(int(ffmt), 6) if ffmt else 6 for ffmt in msec_fmt)
+            usecs = dttime.microsecond
+            dttime += timedelta(microseconds=int(round(usecs, prec - 6)) - usecs)
+
         tstr = datetime.strftime(dttime, fmt)
 
         # now go back and for any %f -> [0-9]{6}, reformat the precision
-- 
2.43.0


From 45b834fbd59de26ba2da7c0c7f20acf1b08f2036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 056/131] fix: calendar years in datetime64_as_years

---
 viscid/npdatetime.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index f9b6777..151016d 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -773,11 +773,13 @@ def _check_like(val, _np_types, _native_types, check_str=None):  # pylint: disab
 def datetime64_as_years(time):
     """Get time as floating point years since the year 0"""
     time = as_datetime64(time)
-    epoch_year = 1970
-    epoch = as_datetime64("{0}-01-01T00:00:00.0".format(epoch_year))
-    tdelta = time_diff(time, epoch, most_precise=True)
-    years = tdelta / np.timedelta64(1, 'D') / 365.242 + epoch_year
-    return years
+    year = time.astype('datetime64[Y]')
+    year_len = ((year + 1).astype('datetime64[D]') -
+                year.astype('datetime64[D]')) / np.timedelta64(1, 'D')
+    day = time.astype('datetime64[D]')
+    days = ((day - year.astype('datetime64[D]')) / np.timedelta64(1, 'D') +
+            time_diff(time, day) / np.timedelta64(1, 's') / (24 * 3600))
+    return year.astype('i8') + 1970 + days / year_len
 
 def is_datetime_like(val, conservative=False):  # pylint: disable=unused-argument
     """Returns True iff val is datetime-like"""
-- 
2.43.0


From 55abefe3a9ccc5298aaac3194fb295a9499c1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 057/131] fix: rot2angle changes its argument and takes no list
 of axes

---
 viscid/rotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 44f2497..c5223a0 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -480,7 +480,7 @@ def rot2angle(R, axes='zyx', unit='rad', bad_matrix='warn'):
     See Also:
         * :py:func:`angle2rot` for more details about axes order.
     """
-    R = np.asarray(R, dtype=np.double)
+    R = np.array(R, dtype=np.double)
     if len(R.shape) == 2:
         R = np.reshape(R, [1] + list(R.shape))
         single_val = True
@@ -491,7 +491,8 @@ def rot2angle(R, axes='zyx', unit='rad', bad_matrix='warn'):
         raise ValueError("Rotation matrices must be 3x3 or 4x4")
     if len(axes) != 3:
         raise ValueError("Must have one axis for each Euler angle")
-    axes = axes.strip().lower()
+    axes = ''.join('xyz'[ax] if ax in (0, 1, 2) else ax.strip().lower()
+                   for ax in axes)
 
     check_orthonormality(R, bad_matrix=bad_matrix)
 
-- 
2.43.0


From 18e984e4f848b363d7e0b3eb672f5bb563abf8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 058/131] fix: quat2rot of lists and integers

---
 viscid/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index c5223a0..04b84b4 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -774,10 +774,10 @@ def quat2rot(q):
     q = np.asarray(q)
     if hasattr(np, 'quaternion') and q.dtype == 'quaternion':
         single_val = q.shape == ()
-        q = q.reshape(-1)
+        q = q.reshape(-1).view(dtype=np.double)
     else:
         single_val = q.shape == (4,)
-    q = q.view(dtype=np.double).reshape(-1, 4)
+    q = np.array(q, dtype=np.double).reshape(-1, 4)
 
     q_norm = np.linalg.norm(q, axis=-1)
     do_renorm = ~np.bitwise_or(np.isclose(q_norm, 0.0), np.isclose(q_norm, 1.0))
-- 
2.43.0


From c90be6c5b74691fd317e17a859c305302c7d6801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 059/131] fix: rot2wxyz without the quick method

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 04b84b4..1e7f872 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1071,7 +1071,7 @@ def rot2wxyz(R, unit='rad', quick=True, bad_matrix='warn'):
     if any(null_mask):
         # calculate eigen vectors for transforms where the quick
         # method failed (or was never calculated)
-        eigval, eigvecs = np.linalg.eigh(R[null_mask])
+        eigval, eigvecs = np.linalg.eig(R[null_mask])
         idx_evec = np.argmin(np.abs(eigval - 1.0), axis=1)
         # eigenvector for eigenval closest to 1.0
         u[null_mask, :] = eigvecs[np.arange(len(eigvecs)), :, idx_evec].real
-- 
2.43.0


From 3ac4baf75e8db1edaa4d1ce9811cbd32e72e1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 060/131] fix: wxyz2quat of one angle and many vectors

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 1e7f872..f1ad11d 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1156,7 +1156,7 @@ def wxyz2quat(angle, vector, unit='rad'):
 
     half_theta_rad = convert_angle(angle, unit, 'rad') / 2
 
-    q = np.zeros([len(half_theta_rad), 4], dtype=np.double)
+    q = np.zeros([max(len(half_theta_rad), len(vector)), 4], dtype=np.double)
 
     q[:, 0:1] = np.cos(half_theta_rad)
     q[:, 1:] = (np.sin(half_theta_rad)
-- 
2.43.0


From 269647a01ae2ae0ea25a8722a1f9c3595f5e25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 061/131] fix: quat2wxyz normalizes all quaternions by the norm
 of the last

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index f1ad11d..e62ab7e 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1212,7 +1212,7 @@ def quat2wxyz(q, unit='rad'):
     wxyz = np.zeros([len(q), 4], dtype=np.double)
 
     # normalize quats
-    q = q / np.linalg.norm(q, axis=1)[-1, np.newaxis]
+    q = q / np.linalg.norm(q, axis=1)[:, np.newaxis]
 
     vec_norm = np.linalg.norm(q[:, 1:], axis=1)
     wxyz[:, 0] = 2 * np.arctan2(vec_norm, q[:, 0])
-- 
2.43.0


From 14114753d6bc74c6ce2950c50ab3942d7d9efcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 062/131] fix: angle_between parallel vectors

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index e62ab7e..3cf99fa 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1269,7 +1269,7 @@ def angle_between(a, b, unit='rad'):
     b_norm = np.linalg.norm(b, axis=-1)
 
     normdot = np.sum(a * b, axis=-1) / (a_norm * b_norm)
-    angle_rad = np.arccos(normdot)
+    angle_rad = np.arccos(np.clip(normdot, -1.0, 1.0))
 
     if single_val:
         angle_rad = angle_rad[0]
-- 
2.43.0


From f9b4ff81951bbaa80d3d6d0d9ce0441dbde886d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 063/131] fix: a2b_rot of one vector and many

---
 viscid/rotation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 3cf99fa..18e93de 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1305,6 +1305,7 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
 
     a /= np.linalg.norm(a, axis=1).reshape(-1, 1)
     b /= np.linalg.norm(b, axis=1).reshape(-1, 1)
+    a, b = np.broadcast_arrays(a, b)
 
     theta_rad = np.arctan2(np.linalg.norm(np.cross(a, b, axis=1), axis=1),
                            np.sum(a * b, axis=1))
-- 
2.43.0


From 74a901a0c4f6b25b99a00bd1d4b63c89f5a2b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 064/131] fix: a2b_rot with a new x axis opposite to the old
 one

---
 viscid/rotation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 18e93de..ed552ad 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1332,12 +1332,10 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
             current_x = np.einsum('mij,mj->mi', R, [[1, 0, 0]])
             new_x /= new_x_norm
             current_x /= np.linalg.norm(current_x, axis=1)[:, np.newaxis]
-            s_roll = np.linalg.norm(np.cross(current_x, new_x, axis=1), axis=1)
+            s_roll = np.sum(np.cross(current_x, new_x, axis=1) * b, axis=1)
             c_roll = np.sum(current_x * new_x, axis=1)
-            roll[~no_norm] = np.arctan2(s_roll, c_roll)
+            roll[~no_norm] = np.arctan2(s_roll, c_roll)[~no_norm]
             roll[~no_norm] = convert_angle(roll[~no_norm], 'rad', unit)
-            roll[~no_norm] *= np.sign(np.sum(np.cross(current_x, new_x, axis=1)
-                                             * b, axis=1))
 
     if np.any(roll):
         roll_rad = convert_angle(roll, unit, 'rad')
-- 
2.43.0


From 9d11d00cea2f9c86d24f02d2ba4dbb28feebe39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 065/131] fix: get_local_shape of MeshPoints

---
 viscid/seed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index bb837c8..b214fb1 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -374,7 +374,7 @@ class MeshPoints(SeedGen):
         return (self.nu, self.nv)
 
     def get_local_shape(self, **kwargs):
-        return self.get_local_shape()
+        return self.uv_shape
 
     def uv_to_local(self, pts_uv):
         return pts_uv
-- 
2.43.0


From 1197dc1a0bb43424c8316f185559f39ff7c7618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 066/131] fix: uv points and arr2mesh of Line

---
 viscid/seed.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index b214fb1..c6a8d0d 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -456,7 +456,7 @@ class Line(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[0]
 
     def to_3d(self, pts_local):
         ds = self.p1 - self.p0
@@ -490,6 +490,9 @@ class Line(SeedGen):
     def as_mesh(self, fill_holes=NOT_SPECIFIED):
         return self.get_points().reshape([3] + list(self.uv_shape))
 
+    def arr2mesh(self, arr, fill_holes=NOT_SPECIFIED):
+        return arr.reshape(self.uv_shape)
+
 class Spline(SeedGen):
     """A spline of seed points"""
     def __init__(self, knots, n=-5, splprep_kw=None, cache=False, dtype=None,
@@ -523,16 +526,14 @@ class Spline(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[0]
 
     def to_3d(self, pts_local, **kwargs):
         import scipy.interpolate as interpolate
-        k = self.splprep_opts.pop("k", self.knots.shape[1] - 1)
-        tck, u = interpolate.splprep(self.knots, k=k, **self.splprep_opts)
-        u = np.linspace(0, 1, self.n + 1, endpoint=True)
-        coords = np.vstack(interpolate.splev(u, tck))
-        coords = coords[:, (pts_local * self.n).astype(int)].astype(self.dtype)
-        return coords
+        opts = dict(self.splprep_opts)
+        k = opts.pop("k", self.knots.shape[1] - 1)
+        tck, _ = interpolate.splprep(self.knots, k=k, **opts)
+        return np.vstack(interpolate.splev(pts_local, tck)).astype(self.dtype)
 
     def to_local(self, pts_3d):
         raise NotImplementedError()
-- 
2.43.0


From f1e9aea623fa28a3eceaff43bf26a26d3944f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 067/131] fix: arr2mesh of Spline

---
 viscid/seed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/seed.py b/viscid/seed.py
index c6a8d0d..f158525 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -563,6 +563,9 @@ class Spline(SeedGen):
     def as_mesh(self, fill_holes=NOT_SPECIFIED):
         return self.get_points().reshape([3] + list(self.uv_shape))
 
+    def arr2mesh(self, arr, fill_holes=NOT_SPECIFIED):
+        return arr.reshape(self.uv_shape)
+
 class Plane(SeedGen):
     """A plane of seed points"""
 
-- 
2.43.0


From 4012310055cf3dd80fbe83a0a9a2b505be15e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 068/131] fix: Plane with parallel N and L

---
 viscid/seed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index f158525..b9bc8f8 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -616,15 +616,15 @@ class Plane(SeedGen):
         Ndir = Ndir / np.sqrt(np.dot(Ndir, Ndir))
         # project Ldir into the plane perpendicular to Ndir
         # (N already normalized)
+        L_len = np.linalg.norm(Ldir)
         Ldir = Ldir - np.dot(Ldir, Ndir) * Ndir
+        if np.linalg.norm(Ldir) <= 1e-8 * L_len:
+            raise RuntimeError("N and L can't be parallel")
         # normalize Ldir
         Ldir = Ldir / np.sqrt(np.dot(Ldir, Ldir))
         # compute Mdir
         Mdir = np.cross(Ndir, Ldir)
 
-        if np.allclose(Mdir, [0, 0, 0]):
-            raise RuntimeError("N and L can't be parallel")
-
         if not isinstance(len_l, (list, tuple)):
             len_l = [-0.5 * len_l, 0.5 * len_l]
         if not isinstance(len_m, (list, tuple)):
-- 
2.43.0


From 5f4b0eb16a4f5f9c4a4ad5347e8f6b0d1935e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 069/131] fix: poles of a Sphere with reversed thetalim

---
 viscid/seed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index b9bc8f8..b29245c 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -1129,7 +1129,7 @@ class Sphere(SeedGen):
         # If the 'top' pole is in thetalim but not included in pts, then
         # extend the pts to include the pole so there aren't holes in the pole
         skipped_poles = self._skipped_poles()
-        sgn = [+1, -1]
+        sgn = np.round(np.cos(self.thetalim))
         # cat_ax = [1, 2]
 
         for i in range(2):
-- 
2.43.0


From acd8605e6470611a040de2e1b7434b6ec85ec998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 070/131] fix: theta_endpoint and angles of SphericalCap

---
 viscid/seed.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index b29245c..dba18a4 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -1221,15 +1221,17 @@ class SphericalCap(Sphere):
             angle (float): cone angle of the cap in degrees
             **kwargs: passed to :py:class:`Sphere` constructor
         """
-        super(SphericalCap, self).__init__(thetalim=(angle0, angle), **kwargs)
+        super(SphericalCap, self).__init__(thetalim=(angle0, angle),
+                                           theta_endpoint=theta_endpoint,
+                                           **kwargs)
 
     @property
     def angle0(self):
-        return self.thetalim[0]
+        return np.rad2deg(self.thetalim[0])
 
     @property
     def angle(self):
-        return self.thetalim[1]
+        return np.rad2deg(self.thetalim[1])
 
     def _resolve_theta_endpoints(self):
         if self.theta_endpoint == 'auto':
-- 
2.43.0


From ac0f49206d502bb2adf92e451c5871244bdb311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 071/131] fix: time given to a Node is set like any other

---
 viscid/tree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 5ba358b..bc48784 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -25,8 +25,6 @@ class Node(object):
             info = dict()
         self._info = info
 
-        self.time = time
-
         if parents is None:
             parents = []
         if not isinstance(parents, (list, tuple)):
@@ -34,6 +32,7 @@ class Node(object):
         self.parents = parents
 
         self._info.update(kwargs)
+        self.time = time
 
     def prepare_child(self, obj):
         if self not in obj.parents:
-- 
2.43.0


From 326e91be53eb734fb5e2948b0d07bc6def6eb7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 072/131] fix: find_attr of a Node fails

---
 viscid/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index bc48784..1ce9d65 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -196,7 +196,7 @@ class Node(object):
         """
         def _condition(_node, _):
             return (hasattr(_node, attr_name) and
-                    getattr(parent, attr_name) is not NotImplemented)
+                    getattr(_node, attr_name) is not NotImplemented)
         parent = self._parent_bfs(_condition)
         if parent is not None:
             return getattr(parent, attr_name)
-- 
2.43.0


From 8640a02de9fe5ede6486b85a20faf74fa2028a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 073/131] fix: setting the time of a Node to a datetime or
 timedelta

---
 viscid/tree.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 1ce9d65..a5254db 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -230,13 +230,14 @@ class Node(object):
 
     @time.setter
     def time(self, val):
-        if viscid.is_datetime_like(val):
-            val = viscid.as_timedelta(self.basetime - viscid.as_datetime64(val))
+        if val is None:
+            return
+        if viscid.is_datetime_like(val, conservative=True):
+            val = viscid.as_timedelta(viscid.time_diff(val, self.basetime))
             val = val.total_seconds()
         elif viscid.is_timedelta_like(val, conservative=True):
             val = viscid.as_timedelta(val).total_seconds()
-        elif val is not None:
-            self.set_info('time', float(val))
+        self.set_info('time', float(val))
 
     def time_as_timedelta64(self):
         return viscid.as_timedelta64(1e6 * self.time, 'us')
-- 
2.43.0


From ac556a9d9cdc11dc65e146a9ccf23d6ea8ec52c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 074/131] fix: as_timedelta64 of numbers keeps nanoseconds and
 takes days

---
 viscid/npdatetime.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 151016d..9435f56 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -65,7 +65,7 @@ __all__ = ['PrecisionError',
 
 _NP_TZ = LooseVersion(np.__version__) < LooseVersion('1.11')
 TIME_UNITS = ('as', 'fs', 'ps', 'ns', 'us', 'ms', 's', 'm', 'h')
-TIME_SCALE = (1e3, 1e3, 1e3, 1e3, 1e3, 1e3, 60, 60)
+TIME_SCALE = (1e3, 1e3, 1e3, 1e3, 1e3, 1e3, 60, 60, 24, 7)
 DATE_UNITS = ('D', 'W', 'M', 'Y')
 ORDERED_UNITS = list(TIME_UNITS) + list(DATE_UNITS)
 
@@ -172,14 +172,24 @@ def _as_timedelta64_scalar(time, unit=None):
         time = np.timedelta64(time).astype(_format_unit(unit, base=DELTA_BASE))
     elif isinstance(time, (int, float, np.integer, np.floating)):
         orig_time, orig_flt_unit = time, flt_unit
-        unit_idx = TIME_UNITS.index(flt_unit)
-        while not np.isclose(time, int(np.round(time)), rtol=1e-7, atol=1e-18):
-            if unit_idx <= 0:
+        # keep whatever is significant, or nanoseconds if that's coarser
+        rtol = 4 * np.finfo(type(time) if isinstance(time, np.floating) else 'f8').eps
+        time = float(time) if isinstance(time, np.floating) else time
+        unit_idx = ORDERED_UNITS.index(flt_unit)
+        atol = 0.0
+        if unit_idx <= len(TIME_SCALE):
+            idx_s = ORDERED_UNITS.index('s')
+            sec = np.prod(TIME_SCALE[unit_idx:idx_s]) / np.prod(TIME_SCALE[idx_s:unit_idx])
+            atol = 2e-9 * min(abs(time), sec)
+        while not np.isclose(time, int(np.round(time)), rtol=rtol,
+                             atol=atol + 1e-18):
+            if unit_idx <= 0 or unit_idx > len(TIME_SCALE):
                 raise ValueError("Floating point time {0} [{1}] is too precise "
                                  "for any time unit?".format(orig_time, orig_flt_unit))
             unit_idx -= 1
             time *= TIME_SCALE[unit_idx]
-            flt_unit = TIME_UNITS[unit_idx]
+            atol *= TIME_SCALE[unit_idx]
+            flt_unit = ORDERED_UNITS[unit_idx]
         time = np.timedelta64(int(np.round(time)), flt_unit)
         unit, unit_args = flt_unit, [flt_unit]
     return np.timedelta64(time, *unit_args)
-- 
2.43.0


From b0ea3a6eac0a0d43f0a10315e9c9e967b4672995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 075/131] fix: sums and differences of times overflow

---
 viscid/npdatetime.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 9435f56..adf9f0c 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -38,6 +38,7 @@ try:
     from itertools import izip
 except ImportError:
     izip = zip
+import operator
 import re
 import sys
 
@@ -556,6 +557,19 @@ def regularize_time(tlst, unit=None, most_precise=False, allow_rounding=True,
         else:
             return ret
 
+def _no_overflow(op, t0, t1, allow_rounding=True, allow0=True):
+    """op(t0, t1) in the unit of t0 and t1, or one that can store the result"""
+    while True:
+        ret = op(t0, t1)
+        flt = op(t0.astype('i8').astype('f8'), t1.astype('i8').astype('f8'))
+        if not np.any((np.abs(flt) >= 2.0**63) & ~np.isnat(ret)):
+            return ret
+        if not allow_rounding:
+            raise OverflowError("The result doesn't fit in '{0}'"
+                                "".format(_get_unit(ret)))
+        unit = ORDERED_UNITS[ORDERED_UNITS.index(_get_unit(ret)) + 1]
+        t0, t1 = regularize_time([t0, t1], unit=unit, allow0=allow0)
+
 def time_sum(t0, tdelta, unit=None, most_precise=False, allow_rounding=True,
              allow0=True):
     """Add timedelta64 to datetime64 at highest precision w/o overflow
@@ -590,7 +604,8 @@ def time_sum(t0, tdelta, unit=None, most_precise=False, allow_rounding=True,
                                  most_precise=most_precise,
                                  allow_rounding=allow_rounding,
                                  allow0=allow0)
-    return t0 + tdelta
+    return _no_overflow(operator.add, t0, tdelta, allow_rounding=allow_rounding,
+                        allow0=allow0)
 
 def time_diff(t1, t2, unit=None, most_precise=False):
     """Diff two datetime64s at highest precision w/o overflow
@@ -614,7 +629,7 @@ def time_diff(t1, t2, unit=None, most_precise=False):
     t1 = as_datetime64(t1)
     t2 = as_datetime64(t2)
     t1, t2 = regularize_time([t1, t2], unit=unit, most_precise=most_precise)
-    return t1 - t2
+    return _no_overflow(operator.sub, t1, t2)
 
 def is_valid_datetime64(arr, unit=None):
     """Returns True iff arr can be made into a datetime64 array"""
-- 
2.43.0


From 810ee8e1feb79dae8d9dd349555e4962e89ee0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 076/131] fix: linspace_datetime64 over more than 292 years

---
 viscid/npdatetime.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index adf9f0c..9afb671 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -359,11 +359,12 @@ def linspace_datetime64(start, stop, n, endpoint=True, unit=None):
     stop = as_datetime64(stop, unit=unit)
     start, stop = regularize_time([start, stop], most_precise=True)
 
-    # interpolate the offsets since the times themselves may need more digits
-    # than a float has
-    delta = stop - start
-    fltarr = np.linspace(0, delta.astype('i8'), n, endpoint=endpoint, dtype='f8')
-    return start + np.round(fltarr, 0).astype('i8').astype(delta.dtype)
+    # use Python's integers since the times may need more digits than a float
+    # has, and their difference can overflow
+    i0, i1 = int(start.astype('i8')), int(stop.astype('i8'))
+    ndiv = max(n - 1 if endpoint else n, 1)
+    lst = [i0 + (2 * i * (i1 - i0) + ndiv) // (2 * ndiv) for i in range(n)]
+    return np.array(lst, dtype='i8').astype(start.dtype)
 
 def _most_precise_t_unit(tlst):
     """Find the most precise time unit from the bunch
-- 
2.43.0


From ab143b966e532a0abb059e771f7705ed5bcca838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 077/131] fix: rounding times of very fine units, and weeks
 along with months

---
 viscid/npdatetime.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 9afb671..a7c69a5 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -377,7 +377,17 @@ def _most_precise_t_unit(tlst):
     """
     units = [_get_base_unit(t)[1] for t in tlst]
     unit_idx = [ORDERED_UNITS.index(u) for u in units]
-    return units[np.argmin(unit_idx)]
+    unit = units[np.argmin(unit_idx)]
+    if unit == 'W' and ('M' in units or 'Y' in units):
+        unit = 'D'  # months and years aren't made of weeks
+    return unit
+
+def _convert_unit(t, unit, cfunc):
+    """Convert via ms since Numpy limits the ratio of one unit to the other"""
+    i, j, mid = [ORDERED_UNITS.index(u) for u in (_get_unit(t), unit, 'ms')]
+    if min(i, j) < mid < max(i, j):
+        t = cfunc(t, unit='ms')
+    return cfunc(t, unit=unit)
 
 def _adjust_t_unit(t, unit, cfunc=None, allow0=True):
     """adjust the unit of t using cfunc
@@ -407,13 +417,13 @@ def _adjust_t_unit(t, unit, cfunc=None, allow0=True):
     elif ORDERED_UNITS.index(unit) < ORDERED_UNITS.index(orig_unit):
         # we want a more precise unit... raise an OverflowError if the
         # new unit can not store the most coarse part of t
-        t1 = cfunc(t, unit=unit)
+        t1 = _convert_unit(t, unit, cfunc)
         # converting back to orig_unit and checking t == t2 effectively
         # checks to make sure we haven't overflowed into the sign bit
         # since this isn't checked by Numpy internally. if the conversion
         # overflowed a 64-bit int completely, an OverflowError has already
         # been raised
-        t2 = cfunc(t1, unit=orig_unit)
+        t2 = _convert_unit(t1, orig_unit, cfunc)
         try:
             if not np.all(t == t2):
                 raise OverflowError("Time {0} could not be refined to unit '{1}' "
@@ -425,7 +435,7 @@ def _adjust_t_unit(t, unit, cfunc=None, allow0=True):
     else:
         # we want a less precise unit, i.e., round t to the new unit... raise
         # a PrecisionError if t was rounded to 0
-        t1 = cfunc(t, unit=unit)
+        t1 = _convert_unit(t, unit, cfunc)
         if not allow0 and t1.astype('i8') == 0 and t.astype('i8') != 0:
             raise PrecisionError("The time {0} was truncated to 0 when "
                                  "rounded to the nearest '{1}'"
@@ -541,6 +551,8 @@ def regularize_time(tlst, unit=None, most_precise=False, allow_rounding=True,
     # refining the unit until we get an OverflowError
     if most_precise:
         for u in reversed(ORDERED_UNITS[:ORDERED_UNITS.index(unit)]):
+            if u == 'W':
+                continue  # months and years aren't made of weeks
             try:
                 nxt = []
                 for t, cfunc in izip(ret, cfuncs):
-- 
2.43.0


From c4c130c994c66645ebf9a28c5f0cd5837e818b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 078/131] fix: sums of times with nanoseconds and finer

---
 viscid/readers/hdf5.py     | 2 +-
 viscid/readers/openggcm.py | 2 +-
 viscid/sliceutil.py        | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index d644b52..1045468 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -284,7 +284,7 @@ class FileHDF5(vfile.VFile):
                 try:
                     tfmt = "%Y:%m:%d:%H:%M:%S.%f"
                     sec_td = viscid.as_timedelta64(fld.time, 's')
-                    dtime = viscid.as_datetime(fld.basetime + sec_td).strftime(tfmt)
+                    dtime = viscid.as_datetime(viscid.time_sum(fld.basetime, sec_td)).strftime(tfmt)
                     epoch = viscid.readers.openggcm.GGCM_EPOCH
                     ts = viscid.as_timedelta(fld.basetime - epoch).total_seconds()
                     ts += fld.time
diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 3d2207b..3b99ed7 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -678,7 +678,7 @@ class GGCMFile(object):  # pylint: disable=abstract-method
         timestr = timestr[len(prefix):].split()
         t = float(timestr[0])
         uttime = viscid.as_datetime64(timestr[2])
-        basetime = uttime - viscid.as_timedelta64(t, 's')
+        basetime = viscid.time_sum(uttime, -viscid.as_timedelta64(t, 's'))
         basetime = viscid.time_as_seconds(basetime, 1)
         return basetime, uttime
 
diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index a4b853a..2e8ef03 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -11,7 +11,8 @@ import numpy as np
 from viscid import logger
 from viscid.compat import izip, string_types
 from viscid.npdatetime import (is_datetime_like, is_timedelta_like,
-                               as_datetime64, as_timedelta64, time_diff)
+                               as_datetime64, as_timedelta64, time_diff,
+                               time_sum)
 
 
 _R_MULTILEVEL_BRACKETS = r"\[[^\]]*\[[^\]]*\]"
@@ -639,9 +640,9 @@ def _unify_sbv_types(std_val, crd_arr, tdunit='s', epoch=None):
         elif isinstance(crd_arr[0], np.datetime64):
             if isinstance(std_val[0, 0], np.floating):
                 std_val = as_timedelta64(std_val[0], unit=tdunit).reshape(1, -1)
-                uval = crd_arr[0] + std_val
+                uval = np.array([[time_sum(crd_arr[0], t) for t in std_val[0]]])
             elif isinstance(std_val[0, 0], np.timedelta64):
-                uval = crd_arr[0] + std_val
+                uval = np.array([[time_sum(crd_arr[0], t) for t in std_val[0]]])
         elif isinstance(crd_arr[0], np.floating):
             if isinstance(std_val[0, 0], np.timedelta64):
                 uval = std_val / as_timedelta64(1, unit=tdunit)
-- 
2.43.0


From ca983d6dbac156c532e356f52b55bb1caf19c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 079/131] fix: get_times on series of files gives files that
 can be read

---
 viscid/dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 13e685f..b206047 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -584,12 +584,12 @@ class DatasetTemporal(Dataset):
             # here, the context manager will unload the file when done, but
             # that's not what we wanted here, we wanted to just clear caches
             if resolved:
-                what = child[1].resolve().get_grid()
+                with child[1].resolve().get_grid() as target:
+                    yield target
             else:
-                what = child[1]
-
-            with what as target:
-                yield target
+                # no context manager, or files would be unloaded before
+                # the caller of get_times has a chance to use them
+                yield child[1]
 
     def get_times(self, sel=slice(None), val_endpoint=True, interior=False,
                   tdunit='s', tol=100):
-- 
2.43.0


From 2187ae5c852e734bf59fc9ccb1845a808f8c4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 080/131] fix: ascii files with one row or one column

---
 viscid/readers/ascii.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/ascii.py b/viscid/readers/ascii.py
index 474a25d..981c72d 100644
--- a/viscid/readers/ascii.py
+++ b/viscid/readers/ascii.py
@@ -28,7 +28,7 @@ class FileASCII(vfile.VFile):  # pylint: disable=W0223
     def _parse(self):
         g = self._make_grid(self)
 
-        arr = np.loadtxt(self.fname)
+        arr = np.loadtxt(self.fname, ndmin=2)
         crds = coordinate.wrap_crds("nonuniform_cartesian", [['x', arr[:, 0]]])
         g.set_crds(crds)
 
-- 
2.43.0


From 068355204a99166e0e5ea79dc5f4702c978727cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 081/131] fix: times of athena tab files with exponents

---
 viscid/readers/athena_tab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/athena_tab.py b/viscid/readers/athena_tab.py
index af7f3e4..a706380 100644
--- a/viscid/readers/athena_tab.py
+++ b/viscid/readers/athena_tab.py
@@ -126,7 +126,7 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
                 if line.startswith('Nx'):
                     dims.append(int(line.split('=')[1]))
                 if "Time" in line:
-                    t = re.search(r"Time\s*=\s*([0-9\.]+)", line).groups()[0]
+                    t = re.search(r"Time\s*=\s*([-+0-9\.eE]+)", line).groups()[0]
                 # il y a level & domain for SMR outptut, but i'm ignoring them
 
                 fns = re.split(r"\[[0-9]+\]=", line)
-- 
2.43.0


From ca931c35a60e0718a05a3a5923c02e5eb2149bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 082/131] fix: axes of one cell in athena tab files

---
 viscid/readers/athena_tab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/athena_tab.py b/viscid/readers/athena_tab.py
index a706380..9f2b83d 100644
--- a/viscid/readers/athena_tab.py
+++ b/viscid/readers/athena_tab.py
@@ -159,8 +159,9 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
             stop = int(np.prod(dims[:i + 1]))
             step = int(np.prod(dims[:i]))
             cc = dat[i][:stop:step]
-            dxmin = np.min([dxmin, np.min(cc[1:] - cc[:-1])])
             assert len(cc) == dim
+            if dim > 1:
+                dxmin = np.min([dxmin, np.min(cc[1:] - cc[:-1])])
             cclist.append((axis, cc))
 
         for axis, cc in cclist:
-- 
2.43.0


From 221e3aa5ac2ed0d73500617abf0a264d82ca2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 083/131] fix: xdmf topology is given as NumberOfElements

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index a9d9255..cdf0682 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -71,7 +71,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                                    # 2DSMesh | 2DRectMesh | 2DCoRectMesh |
                                    # 3DSMesh | 3DRectMesh | 3DCoRectMesh
             "NodesPerElement": None,
-            "NumberOfElement": None,
+            "NumberOfElements": None,
             "Dimensions": None,
             "Order": None,
             "BaseOffset": 0
-- 
2.43.0


From ce60e688f3b035ce3164c383cf2cbc9688560f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 084/131] fix: times in the list of an xdmf temporal collection

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index cdf0682..5d23a5c 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -186,7 +186,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             for i, subgrid in enumerate(el.findall("./Grid")):
                 t = times[i] if (times is not None and i < len(times)) else time
                 # print(subgrid, grd, t)
-                self._parse_grid(subgrid, parent_node=grd, time=time)
+                self._parse_grid(subgrid, parent_node=grd, time=t)
             if len(grd.children) > 0:
                 grd.activate(0)
 
-- 
2.43.0


From d4f25d9b99e6c5bcd7297ac33763830bca2d911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 085/131] fix: white space in the dimensions of xdmf items

---
 viscid/readers/xdmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 5d23a5c..1523bc2 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -386,7 +386,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             # crdlist = [['theta', [0.0, 180.0, ntheta]],
             #            ['phi', [0.0, 360.0, nphi]]]
             ######## names on a map
-            ntheta, nphi = [int(s) for s in topoattrs["Dimensions"].split(' ')]
+            ntheta, nphi = [int(s) for s in topoattrs["Dimensions"].split()]
             crdlist = [['phi', [0.0, 360.0, nphi]],
                        ['theta', [0.0, 180.0, ntheta]]]
             crdkwargs["full_arrays"] = False
@@ -424,7 +424,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
 
         dimensions = attrs["Dimensions"]
         if dimensions:
-            dimensions = [int(d) for d in dimensions.split(' ')]
+            dimensions = [int(d) for d in dimensions.split()]
 
         numbertype = attrs["NumberType"]
         precision = attrs["Precision"]
-- 
2.43.0


From 8f4742e37ca257eb390e15a6f4fb292e22229b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 086/131] fix: xdmf information held by a data item

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 1523bc2..d12e17c 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -492,7 +492,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         val = attrs["Value"]
         if val is None:
             _di = information.find(".//DataItem")
-            if _di:
+            if _di is not None:
                 val, _ = self._parse_dataitem(_di)
             else:
                 val = information.text
-- 
2.43.0


From efd6d47e0d90c939e8b3082150c062b4dc513d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 087/131] fix: plasma beta divides by B squared

---
 viscid/calculator/plasma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index d917ccd..25cabfb 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -130,10 +130,10 @@ def calc_beta(pp, B, scale=1.0):
     if _HAS_NUMEXPR:
         ldict = dict(scale=scale, bx=bx, by=by, bz=bz,
                      pp=pp, two=two)
-        result = ne.evaluate("scale * two * pp / sqrt(bx**2 + by**2 + bz**2)",
+        result = ne.evaluate("scale * two * pp / (bx**2 + by**2 + bz**2)",
                              local_dict=ldict)
     else:
-        result = scale * two * pp / np.sqrt(bx**2 + by**2 + bz**2)
+        result = scale * two * pp / (bx**2 + by**2 + bz**2)
     context = dict(name="beta", pretty_name=r"$\beta_{pl}$")
     return pp.wrap(result, context=context)
 
-- 
2.43.0


From 0e7074890e22b2162270355ea52488600e4f2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 088/131] fix: full() of face and edge centered fields has the
 shape of their cells

---
 viscid/field.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index e1b5af0..8bf7887 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -162,12 +162,10 @@ def full(crds, fill_value, dtype="f8", name="NoName", center="cell",
         # can understand
         crds = coordinate.arrays2crds(crds, crd_type=crd_type, crd_names=crd_names)
 
-    if center.lower() == "cell":
-        sshape = crds.shape_cc
-    elif center.lower() == "node":
+    if center.lower() == "node":
         sshape = crds.shape_nc
     else:
-        sshape = crds.shape_nc
+        sshape = crds.shape_cc
 
     if nr_comps == 0:
         fldtype = "scalar"
-- 
2.43.0


From 95e83df0b8cab147322a3217400cf457c0360c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 089/131] fix: endless recursion for vectors whose components
 are not in the file

---
 viscid/readers/openggcm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 3b99ed7..12cd370 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -405,7 +405,14 @@ class GGCMGrid(grid.Grid):
         comps = [self[base_name + c + suffix] for c in comp_names]
         return field.scalar_fields_to_vector(comps, name=base_name, **opts)
 
+    def _require_fields(self, *names):
+        for name in names:
+            if name not in self:
+                raise KeyError(name)
+
     def _get_v(self):
+        # the components are in turn parts of "v", unless they are in the file
+        self._require_fields("vx", "vy", "vz")
         return self._assemble_vector("v", _force_layout=self.force_vector_layout,
                                      pretty_name="V")
 
@@ -453,7 +460,8 @@ class GGCMGrid(grid.Grid):
 
     def _get_b_cc(self):
         try:
-            # get from [bx, by, bz]
+            # get from [bx, by, bz], which are parts of "b" if not in the file
+            self._require_fields("bx", "by", "bz")
             return self._assemble_vector("b", _force_layout=self.force_vector_layout,
                                          pretty_name="B")
         except KeyError:
-- 
2.43.0


From b0e984ab3c28e75b67b08dddc71706933bcbfb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 090/131] fix: coordinates of fields whose centering is
 capitalised

---
 viscid/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 8bf7887..2fdf638 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1436,7 +1436,8 @@ class Field(tree.Leaf):
         axis can be crd name as string, or index, as in x==2, y==1, z==2 """
         # FIXME: work out how get_crd should act on face/edge fields since
         #        in this case there are 3 possibilities
-        center = 'cell' if self.center in ('face', 'edge') else self.center
+        center = self.center.lower()
+        center = 'cell' if center in ('face', 'edge') else center
         return self._src_crds.get_crd(axis, center=center, shaped=shaped)
 
     def get_crd_nc(self, axis, shaped=False):
@@ -1483,7 +1484,8 @@ class Field(tree.Leaf):
         """ return all crds as list of ndarrays with same centering as field """
         # FIXME: work out how get_crds should act on face/edge fields since
         #        in this case there are 3 possibilities
-        center = 'cell' if self.center in ('face', 'edge') else self.center
+        center = self.center.lower()
+        center = 'cell' if center in ('face', 'edge') else center
         return self._src_crds.get_crds(axes=axes, center=center, shaped=shaped)
 
     def get_crds_nc(self, axes=None, shaped=False):
-- 
2.43.0


From 3b40548b20257eba8051027cdb1daee814262935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 091/131] fix: units given as a tuple or for fewer axes than
 there are

---
 viscid/coordinate.py | 2 +-
 viscid/mapfield.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 87e3b8f..a37484f 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -191,7 +191,7 @@ class Coordinates(object):
             units = self._units
             if not isinstance(units, (list, tuple)):
                 units = [units] * self.nr_dims
-            units += [None] * (len(units) - self.nr_dims)
+            units = list(units) + [None] * (self.nr_dims - len(units))
             units = ["" if u is None else u.strip() for u in units]
             self._units = units
             self._units_validated = True
diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 0c5f916..ac8509c 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -53,7 +53,7 @@ def fld_noop(fld, base, target, unit=''):
 def _prep_units(order, units='', fld=None):
     if not isinstance(units, (list, tuple)):
         units = [units] * len(order)
-    units += [None] * (len(units) - len(order))
+    units = list(units) + [None] * (len(order) - len(units))
     units = ['' if u is None else u.strip() for u in units]
     if fld is not None:
         crds = fld.crds
-- 
2.43.0


From d145e0558ac2ee6ce2174fd3f8e20e222949d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 092/131] fix: the data axis of the first coordinate of vectors
 whose layout is flat

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index ac8509c..d1f5781 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -76,7 +76,7 @@ def _make_transform_unit_func(base_unit, target_unit):
 
 def _get_axinds(fld, ax):
     dcrd = fld.crds.ind(ax)
-    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp < dcrd else dcrd
+    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp <= dcrd else dcrd
     return dcrd, ddat
 
 def _fld_xform_common(fld, base, target, unit, crd_xform, dat_xform, raw=False):
-- 
2.43.0


From 1e78174a27bcf89e593fcea80998ba237a515551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 093/131] fix: latitudes of fields in radians

---
 viscid/mapfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index d1f5781..dc4c7ef 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -110,6 +110,7 @@ def fld_phi2lon(fld, base='phi', target='lon', unit='deg'):
     return fld_noop(fld, base=base, target=target, unit=unit)
 
 def fld_theta2lat(fld, base='theta', target='lat', unit='deg'):
+    unit = unit if unit else fld.crds.get_unit(base)
     _, ddat = _get_axinds(fld, base)
     crd_xform = lambda x: theta2lat(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
@@ -123,6 +124,7 @@ def fld_lon2phi(fld, base='lon', target='phi', unit='deg'):
     return fld_noop(fld, base=base, target=target, unit=unit)
 
 def fld_lat2theta(fld, base='lat', target='theta', unit='deg'):
+    unit = unit if unit else fld.crds.get_unit(base)
     dcrd, ddat = _get_axinds(fld, base)
     crd_xform = lambda x: lat2theta(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
-- 
2.43.0


From ce77c9ec6b5cc75411beeafc8f45b2126e90749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 094/131] fix: closing the circle of polar map fields with
 uniform coordinates, and of vectors

---
 viscid/mapfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index dc4c7ef..e953ecf 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -289,7 +289,8 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
 
         if phi_diff < 2 * np.pi - 1e-5:
             if mfld.crds.is_uniform():
-                clist[0][1][1] += phi_diff / clist[0][1][2]
+                clist[0][1][1] += phi_diff / (clist[0][1][2] - 1)
+                clist[0][1][2] += 1
                 if not np.isclose(clist[0][1][1] - clist[0][1][0], 2 * np.pi):
                     viscid.logger.warning("Tried unsuccessfully to make uniform "
                                           "polar mapfield periodic: {0:g}"
@@ -297,7 +298,9 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
             else:
                 clist[0][1] = np.concatenate([clist[0][1],
                                               [clist[0][1][0] + 2 * np.pi]])
-            mfld_dat = np.concatenate([mfld_dat, mfld_dat[0:1, :]], axis=0)
+            _, ddat = _get_axinds(mfld, 'lon')
+            first = np.take(mfld_dat, [0], axis=ddat)
+            mfld_dat = np.concatenate([mfld_dat, first], axis=ddat)
 
     crds = wrap_crds(mfld.crds.crdtype, clist, dtype=mfld.crds.dtype)
     ctx = dict(crds=crds)
-- 
2.43.0


From 5a7e18ee0d41821fc475705907532710a20861a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 095/131] fix: spherical coordinates in degrees, and of points
 given as integers

---
 viscid/mapfield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index e953ecf..f235a6b 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -379,8 +379,10 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
     return pts
 
 def _as_3xN(arr, d=3):
-    """return a copy of arr as a 3xN array"""
+    """return a copy of arr as a 3xN array of floating point numbers"""
     arr = np.array(arr)
+    if arr.dtype.kind in 'iub':
+        arr = arr.astype('f8')
     was_single_point = arr.shape == (d, )
     arr = arr.reshape((d, -1))
     return arr, was_single_point
@@ -402,7 +404,7 @@ def cart2sph(arr, deg=False):
     ret[1, :] = np.arccos(arr[2, :] / ret[0, :])
     ret[2, :] = np.arctan2(arr[1, :], arr[0, :])
     if deg:
-        arr[1:] *= 180.0 / np.pi
+        ret[1:] *= 180.0 / np.pi
     if was_single_point:
         return ret[:, 0]
     else:
-- 
2.43.0


From 14979f0fc6b698db397b8cc98e1f328b90eb924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 096/131] fix: great circles between points on a line through
 the origin

---
 viscid/mapfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index f235a6b..88917f4 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -511,6 +511,8 @@ def great_circle(p1, p2, origin=(0, 0, 0), n=32):
         pole = np.array([0, -1, 0])
         if np.isclose(np.linalg.norm(np.cross(pole, p1)), 0.0):
             pole = np.array([0, 0, -1])
+        # the pole has to be perpendicular to p1
+        pole = pole - (np.dot(pole, p1) / np.dot(p1, p1)) * p1
 
     matBtoA = viscid.a2b_rot([0, 0, 1], pole, new_x=p1)
 
-- 
2.43.0


From dbdb04d6a4d9d320534e7e5ba73227a3275d3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 097/131] fix: dipole field at any number of points

---
 viscid/dipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 7bceee6..297d457 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -191,12 +191,12 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
     # Note: this is almost the same as fill_dipole, but all components
     #       are calculated simultaneously, and so this uses more memory
     if _HAS_NUMEXPR:
-        _X, _Y, _Z = pts.T
+        _X, _Y, _Z = pts.T[:, :, np.newaxis]
         rsq = ne.evaluate("_X**2 + _Y**2 + _Z**2")  # pylint: disable=W0612
         mdotr = ne.evaluate("mx * _X + my * _Y + mz * _Z")  # pylint: disable=W0612
         Bdip = ne.evaluate("((three * pts * mdotr / rsq) - m) / rsq**1.5")
     else:
-        _X, _Y, _Z = pts.T
+        _X, _Y, _Z = pts.T[:, :, np.newaxis]
         rsq = _X**2 + _Y**2 + _Z**2
         mdotr = mx * _X + my * _Y + mz * _Z
         Bdip = ((three * pts * mdotr / rsq) - m) / rsq**1.5
-- 
2.43.0


From c1518292b4d35d85356b5b4938f588739694ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 098/131] fix: masks of face and edge centered vectors

---
 viscid/dipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 297d457..d17b2e0 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -249,7 +249,7 @@ def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
             rsq = np.sum([c**2 for c in _crd_lst[i]], axis=0)
             _slc = [slice(None)] * len(fld.shape)
             _slc[fld.nr_comp] = i
-            mask[_slc] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
+            mask[tuple(_slc)] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         return fld.wrap_field(mask, dtype='bool')
     else:
         rsq = np.sum([c**2 for c in fld.get_crds(shaped=True)], axis=0)
-- 
2.43.0


From 7d78940a949ef1977f9659201657d4c03a154902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 099/131] fix: dipole within a mask

---
 viscid/dipole.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index d17b2e0..e210607 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -99,7 +99,7 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
         Field: B
     """
     # FIXME: should really be taking the curl of a vector field
-    if mask:
+    if mask is not None:
         Bdip = field.empty_like(B)
     else:
         Bdip = B
@@ -141,8 +141,12 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
             mdotr = mx * _X + my * _Y + mz * _Z
             Bdip[cn] = ((three * _XI * mdotr / rsq) - _mi) / rsq**1.5
 
-    if mask:
-        B.data[...] = np.choose(mask.astype('i'), [B, Bdip])
+    if mask is not None:
+        if mask.nr_comps:
+            mask_dat = mask.as_centered(B.center).as_layout(B.layout).data
+        else:
+            mask_dat = np.expand_dims(mask.data, B.nr_comp)
+        B.data[...] = np.where(mask_dat, Bdip.data, B.data)
     return B
 
 def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
-- 
2.43.0


From efb73a9d7dac5500ff256efd9565815aaa2f8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 100/131] fix: mapping values of cartesian fields along a
 dipole

---
 viscid/dipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index e210607..46dd9cc 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -370,7 +370,7 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     if crd_system is None:
         crd_system = viscid.as_crd_system(fld, 'gse')
 
-    if fld.is_spherical:
+    if fld.is_spherical():
         # TODO: verify that crd_system works as expected for ionosphere
         #       fields (ie, meaning of +x and phi = 0)
         fld = viscid.as_spherefield(fld, order=('theta', 'phi'))['r=newaxis, ...']
@@ -380,7 +380,7 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     # pts should be shaped 3xNX*NY*NZ or similar such that the points
     # are in the same order as the flattened c-contiguous array
     mapped_pts = dipole_map(pts, r=r, cotr=cotr, crd_system=crd_system,
-                            as_spherical=fld.is_spherical)
+                            as_spherical=fld.is_spherical())
     ret = viscid.interp(fld, mapped_pts, kind=interp_kind, wrap=False)
     if fillna is not None:
         ret[np.isnan(ret)] = fillna
-- 
2.43.0


From 7e9aeddaf05a1ab38f8637cf20d2ab805c921694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:25 +0000
Subject: [PATCH 101/131] fix: find_nulls of fields without nulls, and of
 single precision

---
 viscid/cython/null_tools.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index cd52548..99f5872 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -102,9 +102,9 @@ def _classify_nulls(b, null_inds, rtol=1e-5, atol=1e-8):
 def _reduce_candidates(fld, ibound=0.0):
     # these crds are same centering as fld
     dat = fld.as_interlaced().data
-    x, y, z = fld.get_crds("xyz")
+    x, y, z = [np.array(c, dtype=dat.dtype) for c in fld.get_crds("xyz")]
     candidate_inds = _py_reduce_candidates(dat, x, y, z, ibound)
-    return np.array(candidate_inds)
+    return np.array(candidate_inds, dtype=np.int_)
 
 def _find_null_cells_from_candidates(fld, inds):
     assert fld.nr_sdims == 3
@@ -113,7 +113,8 @@ def _find_null_cells_from_candidates(fld, inds):
     # iys = np.array(iys, dtype='int32', copy=False)
     # ixs = np.array(ixs, dtype='int32', copy=False)
     dat = fld.as_interlaced().data
-    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds))
+    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds),
+                         dtype=np.int_)
     x, y, z = fld.get_crds()
     null_pts = np.zeros_like(null_inds).astype(dat.dtype)
     null_pts[0, :] = x[null_inds[0, :]]
-- 
2.43.0


From e3df3725d402742e3b7d6ae63fbde9468b3addb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:25 +0000
Subject: [PATCH 102/131] fix: corner of the faces where find_nulls looks for
 roots

---
 viscid/cython/null_tools.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index 99f5872..94ef457 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -209,7 +209,7 @@ def _py_find_null_cells_from_candidates(real_t[:, :, :, ::1] f,
     cdef int* ozc = [0, 1, 1, 1, 0, 0]
 
     cdef int* oxd = [1, 1, 0, 1, 1, 1]
-    cdef int* oyd = [0, 0, 1, 1, 0, 1]
+    cdef int* oyd = [1, 1, 1, 1, 0, 1]
     cdef int* ozd = [0, 1, 1, 1, 1, 1]
     cdef int[:, ::1] permuted_comps = np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]],
                                                dtype="int32")
-- 
2.43.0


From dcbf0ae48cf9b90a3e18940de6578d7d5d91370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 103/131] fix: roots on faces where the first function does not
 depend on y, or not bilinear

---
 viscid/cython/null_tools.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index 94ef457..e258795 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -315,9 +315,9 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
         desc = b**2 - (4.0 * a * c)
         if desc > 0.0:
             # il y a deux solutions
-            rootx1 = (-b + np.sqrt(desc)) / (2.0 * a)
-            rootx2 = (-b - np.sqrt(desc)) / (2.0 * a)
-            roots_x = np.array([rootx1, rootx2])
+            # this form keeps its digits when a is much smaller than b
+            q = -0.5 * (b + np.copysign(np.sqrt(desc), b))
+            roots_x = np.array([q / a, c / q])
             # print("::", roots_x)
         elif desc == 0.0:
             # il y a seulment une solution
@@ -327,7 +327,10 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
             roots_x = np.array([])
             # print("::", roots_x)
 
-    roots_y = - (a1 + b1 * roots_x) / (c1 + d1 * roots_x)
+    # either f1 or f2 gives yi, take the one that depends more on y
+    roots_y = np.where(np.abs(c1 + d1 * roots_x) >= np.abs(c2 + d2 * roots_x),
+                       - (a1 + b1 * roots_x) / (c1 + d1 * roots_x),
+                       - (a2 + b2 * roots_x) / (c2 + d2 * roots_x))
 
     # remove roots that are outside the box
     keep = ((roots_x >= 0.0) & (roots_x <= 1.0) &
-- 
2.43.0


From 4a8b9ffc783013a9fab6246602c20b39f1b91972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 104/131] fix: Sphere.periodic has a value for each direction

---
 viscid/seed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index dba18a4..2286e52 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -992,7 +992,7 @@ class Sphere(SeedGen):
             else:
                 return ("1", False)
         else:
-            return ()
+            return (False, False)
 
     def _resolve_theta_endpoints(self):
         if self.theta_endpoint == 'auto':
-- 
2.43.0


From a6e6a062b6b1f30cfa237655c0474a21b29ec463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 105/131] fix: l_basis antiparallel to the boundary normal

---
 viscid/calculator/minvar_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/minvar_tools.py b/viscid/calculator/minvar_tools.py
index 344ff7b..776c4c6 100644
--- a/viscid/calculator/minvar_tools.py
+++ b/viscid/calculator/minvar_tools.py
@@ -135,7 +135,7 @@ def _minvar_lmn_directions(evec_min, evec_max, l_basis=(0, 0, 1)):
 
     try:
         l_basis = np.array(l_basis).reshape((3,))
-        if np.allclose(n_dir, l_basis / np.linalg.norm(l_basis)):
+        if np.isclose(np.abs(np.dot(n_dir, l_basis)), np.linalg.norm(l_basis)):
             viscid.logger.warning("LMN says l_basis is parallel to normal, using "
                                   "MVAs max eigenvector direction")
             raise ValueError
-- 
2.43.0


From 18dc362cc817bc7572efa56fe5fa7cdeaa868799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 106/131] fix: minimum variance directions are real and of unit
 length

---
 viscid/calculator/minvar_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/minvar_tools.py b/viscid/calculator/minvar_tools.py
index 776c4c6..0e92705 100644
--- a/viscid/calculator/minvar_tools.py
+++ b/viscid/calculator/minvar_tools.py
@@ -64,7 +64,7 @@ def minvar_series(arr, warn_finite=True):
             m[i, j] = bibj - (np.mean(arr[:, i]) * np.mean(arr[:, j]))
             m[j, i] = bibj - (np.mean(arr[:, i]) * np.mean(arr[:, j]))
 
-    evals, evecs = np.linalg.eig(m)
+    evals, evecs = np.linalg.eigh(m)
     eval_mags = np.abs(evals)
     sorted_inds = np.argsort(eval_mags)
     evec_min = evecs[:, sorted_inds[0]].flatten()
-- 
2.43.0


From f3379622d7d53586f0da2573aba9bfbe81d8c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 107/131] fix: clusters across the corner of maps that are
 periodic both ways

---
 viscid/calculator/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/cluster.py b/viscid/calculator/cluster.py
index dab6824..7b1d714 100644
--- a/viscid/calculator/cluster.py
+++ b/viscid/calculator/cluster.py
@@ -80,7 +80,8 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
     if pd[1]:
         alt += [(0, -pdN[1]), (0, pdN[1])]
     if pd[0] and pd[1]:
-        alt += [(-pdN[0], -pdN[1]), (pdN[0], pdN[1])]
+        alt += [(-pdN[0], -pdN[1]), (pdN[0], pdN[1]),
+                (-pdN[0], pdN[1]), (pdN[0], -pdN[1])]
 
     # cli == cluster indices, clx == cluster locations
     clx = []
-- 
2.43.0


From 003bd7cc5a81c420f43c7ef08135014fe2432d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 108/131] fix: clusters of all points as one, and on maps of
 one cell

---
 viscid/calculator/cluster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/cluster.py b/viscid/calculator/cluster.py
index 7b1d714..9d1d1d7 100644
--- a/viscid/calculator/cluster.py
+++ b/viscid/calculator/cluster.py
@@ -122,10 +122,12 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
                 cli.append([[ix], [iy]])
                 clx.append([[x[ix]], [y[iy]]])
     else:
-        clx = [[x[inds[0, :]], y[inds[1, :]]]]
+        clx = [[crds[0][inds[:, 0]], crds[1][inds[:, 1]]]]
 
     pts = np.array([np.average(clxi, axis=1) for clxi in clx]).reshape((-1, 2))
-    pts -= pdL * np.floor((pts - xl) / (xh - xl))
+    for i in range(2):
+        if pd[i]:
+            pts[:, i] -= pdL[i] * np.floor((pts[:, i] - xl[i]) / (xh[i] - xl[i]))
     return pts.T
 
 def _main():
-- 
2.43.0


From 479008bff98c54cbea6acabd334c80dc2a0ae317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 109/131] fix: topology_bitor_clusters leaves the topology
 alone

---
 viscid/calculator/separator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/separator.py b/viscid/calculator/separator.py
index cc7bab3..e1277c3 100644
--- a/viscid/calculator/separator.py
+++ b/viscid/calculator/separator.py
@@ -165,7 +165,7 @@ def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
     fld = fld.slice_reduce(":")
     if mask_limit:
         fld = np.bitwise_and(fld, mask_limit)
-    a = fld.data
+    a = np.array(fld.data)  # copy, periodic boundaries are or'ed in-place
     x, y = fld.get_crds()
 
     for i in range(max_depth):
-- 
2.43.0


From d818f674393923ad295e4e4206066e3a95dc3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 110/131] fix: boundaries that come to a point in
 topology_bitor_clusters

---
 viscid/calculator/separator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/separator.py b/viscid/calculator/separator.py
index e1277c3..738ca74 100644
--- a/viscid/calculator/separator.py
+++ b/viscid/calculator/separator.py
@@ -182,9 +182,9 @@ def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
         # bitwise_or an entire bounary if all points are neighbors, like
         # at the poles of a sphere
         for bnd in pt_bnds:
-            slc = (slice(None), slice(None))
+            slc = [slice(None), slice(None)]
             slc[int(bnd[0])] = -1 if bnd[1] == "+" else 0
-            a[slc] = np.bitwise_or.reduce(a[slc])
+            a[tuple(slc)] = np.bitwise_or.reduce(a[tuple(slc)])
 
         indx, indy = np.where(a == sep_val)
         if i + 1 >= min_depth and len(indx):
-- 
2.43.0


From 4544d1294c90b25e2d2aa3ee7e2b8f1d40318716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:38 +0000
Subject: [PATCH 111/131] fix: calc_psi of fields with three axes

---
 viscid/calculator/plasma.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index 25cabfb..1d12e84 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -50,8 +50,7 @@ def calc_psi(B, rev=False):
             if nxi <= 2:
                 slcs[i] = 0
                 reduced_axes.append(B.crds.axes[i])
-        slcs.insert(B.nr_comp, slice(None))
-        B = B[slcs]
+        B = B[tuple(slcs)]
 
     # ok, so the above didn't work... just nip out the smallest dim?
     if B.nr_sdims == 3:
@@ -62,8 +61,7 @@ def calc_psi(B, rev=False):
         logger.warning("Tried to get the flux function of a 3D field. "
                        "I can't do that, so I'm\njust ignoring the {0} "
                        "dimension".format(reduced_axes[-1]))
-        slcs.insert(B.nr_comp, slice(None))
-        B = B[slcs]
+        B = B[tuple(slcs)]
 
     if B.nr_sdims != 2:
         raise ValueError("flux function only implemented for 2D fields")
-- 
2.43.0


From 133e543cb65c95c30960e2a234c0140219b0dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 112/131] fix: rc files without any settings

---
 viscid/_rc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/_rc.py b/viscid/_rc.py
index 76561d1..589e0ab 100644
--- a/viscid/_rc.py
+++ b/viscid/_rc.py
@@ -81,7 +81,7 @@ def load_rc_file(fname):
                          "".format(tb, str(e), f.name))
                     raise ValueError(m)
 
-        for path, val in rc_obj.items():
+        for path, val in (rc_obj or {}).items():
             try:
                 touched_objects.append(set_attribute(path, val))
             except RCPathError as e:
-- 
2.43.0


From 266d909aa93f18d4de453a69d813abe5af073d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 113/131] fix: commas and comment signs inside strings in
 vjson, and apostrophes

---
 viscid/vjson.py | 45 +++++++++------------------------------------
 1 file changed, 9 insertions(+), 36 deletions(-)

diff --git a/viscid/vjson.py b/viscid/vjson.py
index c83678c..112d7a3 100644
--- a/viscid/vjson.py
+++ b/viscid/vjson.py
@@ -4,6 +4,7 @@ Comments are either # or //
 """
 from __future__ import print_function
 
+import re
 import sys
 
 try:
@@ -73,42 +74,14 @@ def loads(text, **kwargs):
         text: json as a string
         **kwargs: passed to Python's :py:func:`json.loads`
     """
-    lines = text.split('\n')
-
-    last_nonempty = -1
-    for i in range(len(lines)):
-        # remove comments
-        for loc in find_all(lines[i], ('#', '//')):
-            # if there are an odd number of single or double quotes, then
-            # the comment char is part of a string, and should be kept
-            if (lines[i].count('"', 0, loc) % 2 == 0 and
-                lines[i].count("'", 0, loc) % 2 == 0):  # pylint: disable=bad-continuation
-                lines[i] = lines[i][:loc]
-                break
-
-        lines[i] = lines[i].rstrip()
-
-        # trailing comma?
-        if lines[i]:
-            remove_at = []
-            for loc in find_all(lines[i], ('}', ']')):
-                preceeding_txt = lines[i][:loc].rstrip()
-                # if no preceeding_txt on same line, check last_nonwhite
-                if not preceeding_txt:
-                    if last_nonempty > -1:
-                        if lines[last_nonempty][-1] == ',':
-                            lines[last_nonempty] = lines[last_nonempty][:-1]
-                else:
-                    if preceeding_txt[-1] == ',':
-                        remove_at.append(len(preceeding_txt) - 1)
-            for j, loc in enumerate(remove_at):
-                loc -= j
-                lines[i] = lines[i][:loc] + lines[i][loc + 1:]
-
-            if lines[i]:
-                last_nonempty = i
-
-    return _json.loads('\n'.join(lines), **kwargs)
+    # strings are kept as they are
+    def _keep_str(m):
+        return m.group(1) or ""
+    str_re = r'("(?:\\.|[^"\\\n])*")'
+    text = re.sub(str_re + r'|(?:#|//)[^\n]*', _keep_str, text)
+    text = re.sub(str_re + r'|,(?=\s*[}\]])', _keep_str, text)
+
+    return _json.loads(text, **kwargs)
 
 def load(f, **kwargs):
     """Read file and pass to :py:func:`loads`
-- 
2.43.0


From a9d12f9d5c3a65c603b70ec08432c6795fda1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 114/131] fix: numbers like 1.e3 in equations

---
 viscid/calculator/evaluator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index 963d3fa..d60831b 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -26,6 +26,8 @@ from viscid.calculator import calc
 
 enabled = False
 
+_NUMBER_RE = r"(?<![\w.])(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?"
+
 __all__ = ["evaluate"]
 
 
@@ -92,7 +94,7 @@ def _evaluate_numexpr(grid, result_name, eqn, slc=Ellipsis):
     # in the grid
     salt = "SALT"
     _symbol_re = r"\b([_A-Za-z][_a-zA-Z0-9]*)\b"
-    var_re = _symbol_re + r"(?!\s*\()"
+    var_re = _NUMBER_RE + "|" + _symbol_re + r"(?!\s*\()"
     flds = []
     # for security
     eqn = eqn.replace("__", "")
@@ -100,6 +102,8 @@ def _evaluate_numexpr(grid, result_name, eqn, slc=Ellipsis):
 
     def var_salter(symbols):
         symbol = symbols.groups()[0]
+        if symbol is None:
+            return symbols.group()  # a number
         salted_symbol = salt + symbol
         # yes, i'm not using dict.update on purpose since grid's
         # getitem might copy the array
@@ -138,13 +142,15 @@ def _evaluate_numpy(grid, result_name, eqn, slc=Ellipsis):
     # salt variable names
     salt = "SALT"
     _symbol_re = r"(['\"]?\b[_A-Za-z][_a-zA-Z0-9]*)\b"
-    var_re = _symbol_re + r"(?!\s*\()"
+    var_re = _NUMBER_RE + "|" + _symbol_re + r"(?!\s*\()"
     # for security
     eqn = eqn.replace("__", "")
     local_dict = dict()
 
     def var_salter(symbols):
         symbol = symbols.groups()[0]
+        if symbol is None:
+            return symbols.group()  # a number
         if symbol.startswith("'"):
             return symbol
         salted_symbol = salt + symbol
-- 
2.43.0


From d3882f76a2d3451563bcbaac18f4c08fcefce53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 115/131] fix: interlaced vectors together with other fields in
 equations

---
 viscid/calculator/evaluator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index d60831b..4bc5156 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -119,6 +119,10 @@ def _evaluate_numexpr(grid, result_name, eqn, slc=Ellipsis):
 
     salted_eqn = re.sub(var_re, var_salter, eqn)
 
+    kinds = set((fld.nr_comps, fld.layout) for fld in local_dict.values())
+    if len(kinds) > 1 and field.LAYOUT_INTERLACED in [k[1] for k in kinds]:
+        raise RuntimeError("only fields know how to match these components")
+
     arr = ne.evaluate(salted_eqn, local_dict=local_dict,
                       global_dict={"__builtins__": {}})
 
-- 
2.43.0


From a415fdbd897bace8144ed9d623bb66c0575e9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 116/131] fix: functions with the name of a field in equations

---
 viscid/calculator/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index 4bc5156..395ba97 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -169,7 +169,7 @@ def _evaluate_numpy(grid, result_name, eqn, slc=Ellipsis):
     func_re = _symbol_re + r"(\s*\()"
     def func_salter(symbols):
         symbol = symbols.groups()[0]
-        salted_symbol = salt + symbol
+        salted_symbol = "FUNC" + symbol  # not a field of the same name
         if salted_symbol not in local_dict:
             if hasattr(calc, symbol):
                 local_dict[salted_symbol] = getattr(calc, symbol)
-- 
2.43.0


From 8e534bcf862d58c89464fa71d323f3f40631d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 117/131] fix: resolve_path beyond the datasets of an hdf5 file

---
 viscid/vutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index da5e442..e3d7eba 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -201,7 +201,7 @@ def resolve_path(dset, loc, first=False):
                     next_dsets.append(dset[search[0]])
                     next_searches.append(search[1:])
                     next_paths.append(path + [search[0]])
-                except (KeyError, TypeError, IndexError):
+                except (KeyError, TypeError, IndexError, ValueError):
                     s = [{}.items()]
                     if hasattr(dset, 'items'):
                         s.append(dset.items())
-- 
2.43.0


From 21a828cdfa23a3d797a2989ce02839a3f0783654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 118/131] fix: find_item where the first match leads nowhere

---
 viscid/vutil.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index e3d7eba..c99aa49 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -212,8 +212,6 @@ def resolve_path(dset, loc, first=False):
                             next_dsets.append(val)
                             next_searches.append(search[1:])
                             next_paths.append(path + [key])
-                            if first:
-                                break
             dsets = next_dsets
             searches = next_searches
             paths = next_paths
-- 
2.43.0


From 40084e08579900c8baccd3fafcd06c82ea2fb61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 119/131] fix: order of file names for slices with a negative
 step

---
 viscid/vutil.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index c99aa49..f69d33d 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -598,8 +598,7 @@ def slice_globbed_filenames(glob_pattern):
         slc = slice(None)
 
     idx_whitelist = np.asarray(np.arange(len(fnames))[slc]).reshape(-1)
-    culled_fnames = [s for i, s in enumerate(fnames)
-                     if i in idx_whitelist]
+    culled_fnames = [fnames[i] for i in idx_whitelist]
 
     return culled_fnames
 
-- 
2.43.0


From 938be0fc8e53886f3f71d112b0dc7cf529ca64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 120/131] fix: steps without a stop in slices of file names

---
 viscid/vutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index f69d33d..7869ea2 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -543,7 +543,7 @@ def slice_globbed_filenames(glob_pattern):
         >>> expand_glob_slice("f*.[10.0j::2].txt")
         ["file.010.txt", "file.030.txt"]
 
-        >>> expand_glob_slice("f*.[20j:2].txt")
+        >>> expand_glob_slice("f*.[20j::2].txt")
         ["file.020.txt", "file.040.txt"]
     """
     glob_pattern = os.path.expanduser(os.path.expandvars(glob_pattern))
@@ -554,7 +554,7 @@ def slice_globbed_filenames(glob_pattern):
     dtime_re = sliceutil.RE_DTIME_SLC_GROUP
     number_re = r"[-+]?[0-9]*\.?[0-9]+[fjFJ]?|[-+]?[0-9+]"
     el_re = r"(?:{0}|{1})".format(dtime_re, number_re)
-    slc_re = r"\[({0})?(:({0}))?(:[-+]?[0-9]*)?\]".format(el_re)
+    slc_re = r"\[({0})?(:({0})?)?(:[-+]?[0-9]*)?\]".format(el_re)
     n_slices = len(re.findall(slc_re, glob_pattern))
 
     if n_slices > 1:
-- 
2.43.0


From f3ebc54d123ec23c1a5476f2cb8448a13632b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 121/131] fix: keep underscores in string values of plot
 options

---
 viscid/plot/vpyplot.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 7d1a0a6..e85f7d6 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -170,10 +170,9 @@ def plot_opts_to_kwargs(plot_opts, plot_kwargs):
                 # if opt[1:] are all strings, re-combine them since some legit
                 # options have underscores in them, like reversed cmap names
                 try:
-                    opt[1:] = "_".join(opt[1:])
+                    plot_kwargs[opt[0]] = "_".join(opt[1:])
                 except TypeError:
-                    pass
-                plot_kwargs[opt[0]] = opt[1:]
+                    plot_kwargs[opt[0]] = opt[1:]
     return plot_kwargs
 
 
-- 
2.43.0


From 07a2de45d441507c811917d8237f7cc89e5bc620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 122/131] fix: accept a single number for clim, as for lin and
 log

---
 viscid/plot/vpyplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index e85f7d6..5c225ed 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -304,6 +304,8 @@ def _extract_actions_and_norm(axis, plot_kwargs, defaults=None):
 
     if "clim" in plot_kwargs:
         clim = plot_kwargs.pop('clim')
+        if not hasattr(clim, '__len__'):
+            clim = [clim]
         norm_dict['clim'][:len(clim)] = clim
 
     if "vmin" in plot_kwargs:
-- 
2.43.0


From 3403fc993169a28dee471b9e8e7ada43b54fcfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 123/131] fix: leave the data and coordinates of plotted fields
 unchanged

---
 viscid/plot/vpyplot.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 5c225ed..abeb17b 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -459,6 +459,7 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
             # this is a hack to get rid or the white space
             # between patches when contouring
             Xnc, Ync = fld.get_crds_nc((namex, namey))
+            X, Y = np.array(X), np.array(Y)
             X[0], X[-1] = Xnc[0], Xnc[-1]
             Y[0], Y[-1] = Ync[0], Ync[-1]
 
@@ -466,12 +467,12 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
         # translate latitude from 0..180 to -90..90
         X, Y = np.meshgrid(X, 90 - Y)
     if mod:
-        X *= mod[0]
-        Y *= mod[1]
+        X = X * mod[0]
+        Y = Y * mod[1]
 
     dat = fld.data.T
     if scale is not None:
-        dat *= scale
+        dat = dat * scale
     if masknan:
         dat = np.ma.masked_where(np.isnan(dat), dat)
         all_masked = all_masked and dat.mask.all()
@@ -1216,7 +1217,7 @@ def plot_iono(fld, *args, **kwargs):
 
     fld = viscid.as_mapfield(fld, units='deg')
     if scale is not None:
-        fld *= scale
+        fld = fld * scale
     lat = fld.get_crd('lat')
 
     kwargs = _set_default_cbar_pad(kwargs, pad=0.2)
@@ -1324,9 +1325,9 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     x, dat = ax_arrs
 
     if mod:
-        x *= mod
+        x = x * mod
     if scale:
-        dat *= scale
+        dat = dat * scale
     if masknan:
         dat = np.ma.masked_where(np.isnan(dat), dat)
     p = ax.plot(x, dat, **plot_kwargs)
-- 
2.43.0


From b029f3c90dc8b96499d133c75e816fd79ff0a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 124/131] fix: limits of 2-D plots follow the scale and mod
 options

---
 viscid/plot/vpyplot.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index abeb17b..4841c2e 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -612,18 +612,15 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     tightlim = plot_kwargs.pop('tightlim', plot_kwargs.pop('tightlims', True))
     _proj = getattr(ax, "transProjection", None)
     if tightlim and (_proj is None or 'identity' in _proj.__class__.__name__.lower()):
-        _xl = np.array(fld.xl[:2])
-        _xh = np.array(fld.xh[:2])
+        lims = [(fld.xl[i], fld.xh[i]) for i in range(2)]
+        if plot_kwargs.get('mod', None):
+            lims = [(_l * m, _h * m) for (_l, _h), m in zip(lims, plot_kwargs['mod'])]
+        if flip_plot:
+            lims.reverse()
         if 'x' not in plot_kwargs:
-            if flip_plot:
-                plot_kwargs['x'] = (fld.xl[1], fld.xh[1])
-            else:
-                plot_kwargs['x'] = (fld.xl[0], fld.xh[0])
+            plot_kwargs['x'] = lims[0]
         if 'y' not in plot_kwargs:
-            if flip_plot:
-                plot_kwargs['y'] = (fld.xl[0], fld.xh[0])
-            else:
-                plot_kwargs['y'] = (fld.xl[1], fld.xh[1])
+            plot_kwargs['y'] = lims[1]
 
     actions, norm_dict = _extract_actions_and_norm(ax, plot_kwargs,
                                                    defaults={'axis': _axis})
@@ -702,10 +699,14 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         vscale = norm_dict['vscale']
         vmin, vmax = norm_dict['clim']
 
+        # these limits are for the values as drawn, i.e., after scaling
+        _scale = 1 if scale is None else scale
+        _lims = [_scale * np.nanmin(blk) for blk in fld.patches]
+        _lims += [_scale * np.nanmax(blk) for blk in fld.patches]
         if vmin is None:
-            vmin = np.nanmin([np.nanmin(blk) for blk in fld.patches])
+            vmin = np.nanmin(_lims)
         if vmax is None:
-            vmax = np.nanmax([np.nanmax(blk) for blk in fld.patches])
+            vmax = np.nanmax(_lims)
 
         # vmin / vmax will only be nan if all values are nan
         if np.isnan(vmin) or np.isnan(vmax):
-- 
2.43.0


From 0273e70c378b15eb1bfc9cc484a52692e785b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 125/131] fix: use the xlabel and ylabel options of 2-D plots

---
 viscid/plot/vpyplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 4841c2e..be05ade 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -865,9 +865,9 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         x_is_shared, y_is_shared = _are_xy_shared(ax)
         bottom_most, left_most = _ax_on_edge(ax)
         if not x_is_shared or (x_is_shared and bottom_most):
-            ax.set_xlabel(namex)
+            ax.set_xlabel(xlabel)
         if not y_is_shared or (y_is_shared and left_most):
-            ax.set_ylabel(namey)
+            ax.set_ylabel(ylabel)
 
     _apply_axfmt(ax, majorfmt=majorfmt, minorfmt=minorfmt,
                  majorloc=majorloc, minorloc=minorloc)
-- 
2.43.0


From c9f434a70203cc899e83aa7fb92128b19f8ee434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 126/131] fix: plot_iono selects the southern hemisphere by
 latitude

---
 viscid/plot/vpyplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index be05ade..1db327f 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1237,7 +1237,7 @@ def plot_iono(fld, *args, **kwargs):
     if hem in ('north', 'n'):
         fldH = fld["lat=10j:"]
     elif hem in ('south', 's'):
-        fldH = fld['theta=:-10j']
+        fldH = fld["lat=:-10j"]
     else:
         raise ValueError("Unknown hemisphere: {0}".format(hem))
 
-- 
2.43.0


From 5a9247f4f2ff8816c17aa6c1344b941fd3832dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 127/131] fix: symmetric limits of line plots with NaN values

---
 viscid/plot/vpyplot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 1db327f..1b7ef44 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1346,7 +1346,8 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     if norm_dict['symmetric']:
         if norm_dict['vscale'] == 'log':
             raise ValueError("log scale can't be symmetric about 0")
-        maxval = max(abs(max(dat)), abs(min(dat))) + 0.05 * (max(dat) - min(dat))
+        dmin, dmax = np.nanmin(dat), np.nanmax(dat)
+        maxval = max(abs(dmax), abs(dmin)) + 0.05 * (dmax - dmin)
         vmin, vmax = -maxval, maxval
     if norm_dict['vscale'] is not None:
         if vmin is not None or vmax is not None:
-- 
2.43.0


From 90a85ffca187d64626e9cdf842609be4beac82d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 128/131] fix: use the location given with the legend option

---
 viscid/plot/vpyplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 1b7ef44..85ffccb 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1369,7 +1369,7 @@ def plot1d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
     if legend:
         if isinstance(legend, bool):
             legend = 0
-        ax.legend(loc=0)
+        ax.legend(loc=legend)
 
     plt.sca(ax)
     if show:
-- 
2.43.0


From 32a0f623dfb2ffbfc85813c56d10ad406f0d2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 129/131] fix: bounding latitudes of polar maps count from the
 pole

---
 viscid/mapfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 88917f4..7d17e7e 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -254,14 +254,14 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
     abs_bounding_lat = abs(bounding_lat)
 
     if hemisphere in ("north", 'n'):
-        if np.all(mfld.get_crd('lat') < abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') < np.pi / 2 - abs_bounding_lat):
             raise ValueError("fld {0} contains no values north of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
         # mfld = mfld["lat=:{0}j:-1".format(abs_bounding_lat)]
         mfld = mfld.loc[:, :np.pi / 2 - abs_bounding_lat:-1]
     elif hemisphere in ("south", 's'):
-        if np.all(mfld.get_crd('lat') > -abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') > -np.pi / 2 + abs_bounding_lat):
             raise ValueError("fld {0} contains no values south of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
-- 
2.43.0


From 2c554bbc669345d76e33dfa74c251b38258056ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 130/131] fix: lines with rgb colors for each vertex or one rgb
 tuple

---
 viscid/vutil.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index 7869ea2..5ebd261 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -365,10 +365,7 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
             elif isinstance(scalars, np.ndarray):
                 scalars = scalars
             else:
-                for i, si in enumerate(scalars):
-                    if not isinstance(si, np.ndarray):
-                        scalars[i] = np.asarray(si)
-                    scalars[i] = np.atleast_2d(scalars[i])
+                scalars = [np.atleast_2d(si) for si in scalars]
                 try:
                     scalars = np.concatenate(scalars, axis=0)
                 except ValueError:
@@ -407,10 +404,8 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
             scalars = np.concatenate(colors, axis=1)
         elif scalars.shape in [(3, N), (N, 3), (4, N), (N, 4)]:
             # one rgb(a) color for each vertex
-            if (scalars.shape in [(3, N), (4, N)] and
-                scalars.shape not in [(3, 3), (4, 4)]):
-                # the guard against shapes (3, 3) and (4, 4) mean that
-                # these square shapes are assumed N x {3,4}
+            if scalars.shape in [(N, 3), (N, 4)]:
+                # square shapes are assumed N x {3,4}
                 scalars = scalars.T
         elif scalars.shape in [(1, 3), (3, 1), (1, 4), (4, 1)]:
             # interpret a single rgb(a) color, and repeat/broadcast it
-- 
2.43.0


From ec821d3b215595254c828e2a5174edff2b873824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:57 +0000
Subject: [PATCH 131/131] fix: plane of 2-D line plots from their vertices, not
 the number of segments

---
 viscid/plot/vpyplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 85ffccb..42f2ef4 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1441,7 +1441,7 @@ def plot2d_lines(lines, scalars=None, symdir="", ax=None,
     verts, segments, vert_scalars, seg_scalars, vert_colors, seg_colors, _ = r
     # alpha = other['alpha']
 
-    xind, yind, zind = _xyzind_from_symdir(segments, symdir)
+    xind, yind, zind = _xyzind_from_symdir(verts, symdir)
 
     if flip_plot:
         xind, yind = yind, xind
-- 
2.43.0

