From 497c425895ff663ba4f960daecdaa181d6ab23ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:18 +0000
Subject: [PATCH 001/134] fix: search descending monotonic coordinates without
 losing precision

---
 dascore/core/coords.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 5e494e6..4e2c132 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1592,19 +1592,18 @@ class CoordMonotonicArray(CoordArray):
         if (new_value := self._get_compatible_value(value)) is None:
             return new_value
         values = np.atleast_1d(self.values)
-        # since search sorted only works on ascending monotonic arrays we
-        # negative descending arrays to get the same effect.
-        if self.reverse_sorted:
-            values = to_float(values) * -1
-            new_value = to_float(new_value) * -1
-        # side = "right" if forward else "left"
-        # out = np.atleast_1d(np.searchsorted(values, new_value, side=side))
+        new_value = np.atleast_1d(new_value)
         # Search values. Ensure the returned index is in bounds (eg values GT
         # coord max should still have a range in coords.
-        new_value = np.atleast_1d(new_value)
-        right = np.searchsorted(values, new_value, side="right")
-        # right_ok = (right < len(self)) & (right < 0)
-        left = np.searchsorted(values, new_value, side="left")
+        if self.reverse_sorted:
+            # search sorted only works on ascending monotonic arrays. Use the
+            # reversed view, rather than negated floats, so no precision is lost.
+            ascending = values[::-1]
+            right = len(values) - np.searchsorted(ascending, new_value, side="left")
+            left = len(values) - np.searchsorted(ascending, new_value, side="right")
+        else:
+            right = np.searchsorted(values, new_value, side="right")
+            left = np.searchsorted(values, new_value, side="left")
         left_ok = (left < len(self)) & (left > 0)
         eq = left_ok & (values.take(left, mode="clip") == new_value)
         out = right if forward else left
-- 
2.43.0


From 22bed4209993cedcf0228591f71b91b9bb886a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:18 +0000
Subject: [PATCH 002/134] fix: order descending coordinates without losing
 precision

---
 dascore/core/coords.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 4e2c132..dc0a278 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -321,10 +321,9 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             inds = self._get_value_index(coord_array, values_to_find)
             return self[inds], inds
         if self.reverse_sorted:
-            # Need to_float here because datetime can't be multiplied by -1.
-            inds = self._get_value_index(
-                -to_float(coord_array), -to_float(values_to_find)
-            )
+            # Search the reversed view so no precision is lost.
+            rev_inds = self._get_value_index(coord_array[::-1], values_to_find)
+            inds = len(coord_array) - 1 - rev_inds
             return self[inds], inds
         # Sort the array, then find insertion points, and map
         # back to pre-sorted indices.
-- 
2.43.0


From a52c3f0fcbee109880f293a59473b29e4e4875ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:18 +0000
Subject: [PATCH 003/134] fix: honor negative indices in sample arrays

---
 dascore/core/coords.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index dc0a278..78004aa 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -342,7 +342,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             )
             raise CoordError(msg)
         # Filter out bad indices
-        array = array[np.abs(array) < len(self)]
+        array = array[(array < len(self)) & (array >= -len(self))]
         return self[array], array
 
     def _select_by_value_array(self, array):
@@ -362,6 +362,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             msg = "Select only works on 1D coords."
             raise CoordError(msg)
         inds = np.arange(len(self))
+        # Negative indices count from the end.
+        array = np.where(array < 0, array + len(self), array)
         valid_values = np.isin(inds, array)
         return self[valid_values], valid_values
 
-- 
2.43.0


From 7f071d66f14b990ab6349fd22dbe830126580ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:12 +0000
Subject: [PATCH 004/134] fix: do not label re-ordered monotonic coordinates as
 monotonic

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 78004aa..3a4ca4f 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1539,7 +1539,8 @@ class CoordArray(BaseCoord):
         out = self.values[item]
         if not np.ndim(out):
             return out
-        return self.__class__(values=out, units=self.units)
+        # The indexed values may no longer have the properties of this class.
+        return get_coord(values=out, units=self.units)
 
     def _min(self):
         """Return min value."""
-- 
2.43.0


From 8bf8747ae621038813f8086c01d857a8f5c2c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:12 +0000
Subject: [PATCH 005/134] fix: reduce integer coordinates to their value rather
 than a length

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 3a4ca4f..5280c97 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1016,7 +1016,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 result = _reduce_time_like(func, coord_data)
             else:
                 result = func(self.data)
-            new_coord = self.update(data=result)
+            # An array is needed here; integer data specifies a length.
+            new_coord = self.update(data=np.atleast_1d(result))
         else:
             msg = "dim_reduce must be 'empty', 'squeeze' or valid aggregator."
             raise ParameterError(msg)
-- 
2.43.0


From 26fc4c20d5e488bcd0d012443f49f1f824efcc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:05 +0000
Subject: [PATCH 006/134] fix: keep coordinate units when reducing, padding,
 and rolling

---
 dascore/core/coords.py | 2 +-
 dascore/proc/basic.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 5280c97..63076f9 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1017,7 +1017,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             else:
                 result = func(self.data)
             # An array is needed here; integer data specifies a length.
-            new_coord = self.update(data=np.atleast_1d(result))
+            new_coord = get_coord(data=np.atleast_1d(result), units=self.units)
         else:
             msg = "dim_reduce must be 'empty', 'squeeze' or valid aggregator."
             raise ParameterError(msg)
diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index d41888d..3968ecc 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -641,7 +641,7 @@ def pad(
             added_nan_values = np.pad(
                 old_values, pad_width=pad_tuple, constant_values=null_value
             )
-            new_coord = coord.update(data=added_nan_values)
+            new_coord = get_coord(data=added_nan_values, units=coord.units)
         return new_coord
 
     if isinstance(constant_values, Sequence):
@@ -703,7 +703,7 @@ def roll(patch, samples=False, update_coord=False, **kwargs):
     # update coords if True
     if update_coord:
         roll_coord_arr = np.roll(coord.values, value)
-        new_coord = coord.update(values=roll_coord_arr)
+        new_coord = get_coord(data=roll_coord_arr, units=coord.units)
         patch = patch.update_coords(**{dim: new_coord})
 
     return patch.new(data=roll_arr)
-- 
2.43.0


From 6e3f3ba7553b6a64e4ba0e85de772b08e9683e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 007/134] fix: change_length on coordinates whose step is small
 compared to their stop

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 63076f9..b9b2f20 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1402,7 +1402,7 @@ class CoordRange(BaseCoord):
             return get_coord(data=data, step=self.step, units=self.units)
         diff = length - current
         stop, step = self.stop, self.step
-        out = self.update(stop=stop + step * diff)
+        out = self.new(stop=stop + step * diff)
         assert len(out) == length
         return out
 
-- 
2.43.0


From 897669f45df2b9ef68bbd43f555be9558839eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 008/134] fix: irregular coordinates with small spacing are not
 evenly sampled

---
 dascore/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index f5f0b36..9929174 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -331,7 +331,8 @@ def all_diffs_close_enough(diffs):
     med = np.median(diffs)
     # Note: The rtol parameter here is a bit arbitrary; it was set
     # based on experience but there is probably a better way to do this.
-    return np.allclose(diffs, med, rtol=0.001)
+    # There is no absolute tolerance so the check doesn't depend on units/scale.
+    return np.allclose(diffs, med, rtol=0.001, atol=0)
 
 
 def unbyte(byte_or_str: bytes | str) -> str:
-- 
2.43.0


From 8f33c937c1de43747ed18849434d2868c6334267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 009/134] fix: pad patches with descending coordinates

---
 dascore/proc/basic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 3968ecc..1227ee9 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -626,8 +626,9 @@ def pad(
     def _get_new_coord(coord, pad_tuple, expand_coords):
         """Get the new coordinate along the expanded axis."""
         if expand_coords and coord.evenly_sampled:
-            new_start = coord.min() - pad_tuple[0] * coord.step
-            new_end = coord.max() + (pad_tuple[1] + 1) * coord.step
+            # Use first/last values rather than min/max for descending coords.
+            new_start = coord.values[0] - pad_tuple[0] * coord.step
+            new_end = coord.values[-1] + (pad_tuple[1] + 1) * coord.step
             assert coord.evenly_sampled, "expand_coords requires evenly sampled."
             new_coord = get_coord(
                 start=new_start, stop=new_end, step=coord.step, units=coord.units
-- 
2.43.0


From 89124c7f956f05fbc94edd2ee623ffd751c9c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:30 +0000
Subject: [PATCH 010/134] fix: update limits of descending coordinates

---
 dascore/core/coords.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index b9b2f20..52f7ae8 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1343,6 +1343,9 @@ class CoordRange(BaseCoord):
             step = get_compatible_values(step, type(self.step))
             new_stop = out.start + step * len(out)
             out = out.new(stop=new_stop, step=step)
+        # The first value of descending coordinates is the max, not the min.
+        if out.reverse_sorted:
+            min, max = max, min
         if min is not None:
             min = get_compatible_values(min, self.dtype)
             diff = min - out.start
-- 
2.43.0


From 69688c8d18e66dd39f1c33c9550820fdaa97b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 011/134] fix: indefinite integrals along irregular coordinates
 and of integer data

---
 dascore/transform/integrate.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dascore/transform/integrate.py b/dascore/transform/integrate.py
index 30cab68..f3d5f9f 100644
--- a/dascore/transform/integrate.py
+++ b/dascore/transform/integrate.py
@@ -65,11 +65,14 @@ def _get_indefinite_integral(patch, dxs_or_vals, axes):
     """
     array = patch.data
     for dx_or_val, ax in zip(dxs_or_vals, axes):
-        out = np.zeros_like(array)
-        # if coordinate values are provided need to get diffs.
-        if is_array(dx_or_val):
-            dx_or_val = dx_or_val[1:] - dx_or_val[:-1]
+        # Integer data can't hold the integral, use float.
+        is_inexact = np.issubdtype(array.dtype, np.inexact)
+        out = np.zeros_like(array, dtype=array.dtype if is_inexact else np.float64)
         ndim = len(out.shape)
+        # if coordinate values are provided need to get diffs (along axis).
+        if is_array(dx_or_val):
+            diffs = dx_or_val[1:] - dx_or_val[:-1]
+            dx_or_val = diffs[broadcast_for_index(ndim, ax, slice(None), fill=None)]
         # get diffs along dimension
         stop_indexer = broadcast_for_index(ndim, ax, slice(1, None), fill=slice(None))
         start_indexer = broadcast_for_index(ndim, ax, slice(None, -1), fill=slice(None))
-- 
2.43.0


From 2551e52886c7b8757b81ce156935ccbd09d4edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 012/134] fix: tau-p transform of patches with irregular
 distance or time as first dimension

---
 dascore/transform/taup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/transform/taup.py b/dascore/transform/taup.py
index 12a7d13..1eaa767 100644
--- a/dascore/transform/taup.py
+++ b/dascore/transform/taup.py
@@ -63,7 +63,7 @@ def _jit_taup_general(data, distance, dt, p_vals):
                 samp_val_neg = (
                     tau + p * (mod_distance[-1] - mod_distance[nx - 1 - ix]) / dt
                 )
-                ind_neg = int(samp_val_pos)
+                ind_neg = int(samp_val_neg)
                 if ind_pos + 1 < nt:
                     taup[ip + n_slo, tau] += (1.0 + ind_pos - samp_val_pos) * data[
                         ix, ind_pos
@@ -143,7 +143,7 @@ def tau_p(
         func = _jit_taup_general
         dist_val = dist.values
 
-    slowness, tau_p_data = func(patch.data, dist_val, dt, 1.0 / velocities)
+    slowness, tau_p_data = func(patch_cop.data, dist_val, dt, 1.0 / velocities)
 
     attrs = patch.attrs.update(category="taup")
     coords = dict(slowness=slowness, time=time)
-- 
2.43.0


From 6e3c7dc341602dcede263e9c9b730949536cd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 013/134] fix: setting coordinate units no longer removes data
 units

---
 dascore/proc/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index a254ffa..c89137a 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -22,7 +22,7 @@ def _update_attrs_coord_units(patch: dc.Patch, data_units, coords):
 
 @patch_function()
 def set_units(
-    patch: PatchType, data_units: str | Quantity | Unit | None = None, **kwargs
+    patch: PatchType, data_units: str | Quantity | Unit | None = ..., **kwargs
 ) -> PatchType:
     """
     Set the units of a patch's data or coordinates.
@@ -33,6 +33,7 @@ def set_units(
         The input patch.
     data_units
         New units for the patch data. Accepts both unit and quantity strings.
+        If not provided the data units are unchanged, None removes them.
     **kwargs
         Used to specify new units for any of the patch's coordinates.
 
@@ -56,6 +57,8 @@ def set_units(
     >>> patch_removed_units = patch_with_units.set_units(None)
     """
     new_coords = patch.coords.set_units(**kwargs)
+    if data_units is ...:
+        data_units = patch.attrs.data_units
     new_attrs = _update_attrs_coord_units(patch, data_units, new_coords)
     return patch.new(attrs=new_attrs, coords=new_coords)
 
-- 
2.43.0


From 4d832942acbd016be2e519f6b2dec795754ae0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 014/134] fix: savgol_filter applies the filter along all
 requested dimensions

---
 dascore/proc/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index 51c9508..fd732e5 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -391,7 +391,7 @@ def savgol_filter(
     size, axes = _create_size_and_axes(patch, kwargs, samples)
     for ax in axes:
         data = np_savgol_filter(
-            x=patch.data,
+            x=data,
             window_length=size[ax],
             polyorder=polyorder,
             mode=mode,
-- 
2.43.0


From ef732f46dd8b67eb77ac0750ba86678e3dd67dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 015/134] fix: frequency labels of the rfft transform

---
 dascore/transform/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/transform/fft.py b/dascore/transform/fft.py
index b3a4381..c742ea6 100644
--- a/dascore/transform/fft.py
+++ b/dascore/transform/fft.py
@@ -46,8 +46,8 @@ def rfft(patch: PatchType, dim="time") -> PatchType:
 
     ft = FourierTransformatter()
     data = patch.data
-    sr = 1 / to_float(patch.attrs[f"{dim}_step"])
-    freqs = np.fft.rfftfreq(data.shape[axis], sr)
+    step = to_float(patch.attrs[f"{dim}_step"])
+    freqs = np.fft.rfftfreq(data.shape[axis], step)
     new_data = np.fft.rfft(data, axis=axis)
     # get new dims and data units
     new_dims = ft.rename_dims(dim)
-- 
2.43.0


From ec659f0bb95eeae0ea444d9181d5914cf3320a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 016/134] fix: strided differentiation of integer data

---
 dascore/transform/differentiate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/differentiate.py b/dascore/transform/differentiate.py
index c758e6a..e2fdc38 100644
--- a/dascore/transform/differentiate.py
+++ b/dascore/transform/differentiate.py
@@ -54,7 +54,10 @@ def _strided_diff(order, patch, axes, dx_or_spacing, step):
     if len(axes) > 1:
         msg = "Step in patch.differentiate can only be used along one axis."
         raise ParameterError(msg)
-    new_data = np.empty_like(patch.data)
+    # Integer data can't hold the derivative, use float.
+    is_inexact = np.issubdtype(patch.data.dtype, np.inexact)
+    dtype = patch.data.dtype if is_inexact else np.float64
+    new_data = np.empty_like(patch.data, dtype=dtype)
     dx_or_space = dx_or_spacing[0]
     for step_ in range(step):
         current_slice = slice(step_, None, step)
-- 
2.43.0


From 2afeba4ebef3dc66121f969173bb62d90352f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 017/134] fix: line mutes do not depend on the order of
 dimensions or arguments

---
 dascore/proc/mute.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dascore/proc/mute.py b/dascore/proc/mute.py
index 6aaf8fa..e0c89fc 100644
--- a/dascore/proc/mute.py
+++ b/dascore/proc/mute.py
@@ -248,7 +248,6 @@ class _MuteGeometry2D(_MuteGeometry):
         ifill_index = -1
 
         for ind, (coord, row) in enumerate(zip(coords, value_list, strict=True)):
-            coord = patch.get_coord(patch.dims[ind])
             # We iterate each pair because it might be an implicit value.
             for pair_ind, pair in enumerate(row):
                 is_sized = isinstance(pair, Sized)
-- 
2.43.0


From 09b3197f72c7b36a1e22bb3da80df71ad68c7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:45 +0000
Subject: [PATCH 018/134] fix: interpolate keeps coordinate units and the
 precision of times

---
 dascore/proc/resample.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index 0de7973..12ee762 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -144,13 +144,18 @@ def interpolate(patch: PatchType, kind: str | int = "linear", **kwargs) -> Patch
     # datetime64 yet.
     coord_num = to_int(patch.coords.get_array(dim))
     samples_num = to_int(samples)
+    # interp1d uses floats, which can't represent absolute times in ns.
+    if np.issubdtype(coord_num.dtype, np.integer) and len(coord_num):
+        offset = coord_num.min()
+        coord_num, samples_num = coord_num - offset, samples_num - offset
     func = compat.interp1d(
         coord_num, patch.data, axis=axis, kind=kind, fill_value="extrapolate"
     )
     out = func(samples_num)
     cm = patch.coords
     associated_dims = cm.dim_map[dim]
-    coord_new = dc.core.get_coord(data=samples)
+    units = cm.coord_map[dim].units
+    coord_new = dc.core.get_coord(data=samples, units=units)
     cm_new = cm.update(**{dim: (associated_dims, coord_new)})
     return patch.new(data=out, coords=cm_new)
 
-- 
2.43.0


From 685529941ae1cf0c0dac42719f753bdc291c30c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:29 +0000
Subject: [PATCH 019/134] fix: kurtosis keeps the attributes and history of the
 patch

---
 dascore/transform/kurtosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/transform/kurtosis.py b/dascore/transform/kurtosis.py
index 8ee822b..94ddabf 100644
--- a/dascore/transform/kurtosis.py
+++ b/dascore/transform/kurtosis.py
@@ -240,5 +240,5 @@ def kurtosis(
     return (
         patch_t.new(data=out)
         .transpose(*orig_dims)
-        .update(attrs={"data_type": "kurtosis", "data_units": ""})
+        .update_attrs(data_type="kurtosis", data_units="")
     )
-- 
2.43.0


From 31f96728bb444b0edde5620271ae88e31b9cf620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:29 +0000
Subject: [PATCH 020/134] fix: coordinate summaries do not leak into patch
 attributes

---
 dascore/core/coordmanager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 87dabbf..9b9dade 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -347,9 +347,12 @@ class CoordManager(DascoreBaseModel):
         coords = self.new(coord_map=out)
         # anything not used in coord_info should be put back.
         # for example, data_units might get put in its own coord called data.
+        # Summaries of (old or non-dimensional) coords are not attributes.
+        top_level = set(dict(attrs)) if attrs is not None else set()
         for unused_dim in set(coord_info) - set(coords.dims):
             for key, val in coord_info[unused_dim].items():
-                attr_info[f"{unused_dim}_{key}"] = val
+                if (attr_name := f"{unused_dim}_{key}") in top_level:
+                    attr_info[attr_name] = val
         attr_info["coords"] = coords.to_summary_dict()
         attr_info["dims"] = coords.dims
         attrs = dc.PatchAttrs.from_dict(attr_info)
-- 
2.43.0


From ffb9c7a3d00b26bbf5b1929a70bce48805ad913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:14 +0000
Subject: [PATCH 021/134] fix: setting units by conversion leaves integer
 coordinates unchanged

---
 dascore/core/coords.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 52f7ae8..67222e4 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1259,6 +1259,8 @@ class CoordRange(BaseCoord):
         # cant convert time units
         if dtype_time_like(self.dtype):
             return self
+        if self.units is None:
+            return self.set_units(units)
         out = dict(units=units)
         start = convert_units(self.start, to_units=units, from_units=self.units)
         stop = convert_units(self.stop, to_units=units, from_units=self.units)
-- 
2.43.0


From d88944e3ce7aa087a87ed883d0461491911f5d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:32 +0000
Subject: [PATCH 022/134] fix: slicing through another coordinate keeps even
 coordinates exact

---
 dascore/core/coords.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 67222e4..417784e 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1250,6 +1250,12 @@ class CoordRange(BaseCoord):
         out = self.values[item]
         return get_coord(data=out, units=self.units)
 
+    def index(self, indexer, axis: int | None = None) -> Self:
+        """Index the coordinate, slices keep start and step exactly."""
+        if isinstance(indexer, slice):
+            return self[indexer]
+        return super().index(indexer, axis=axis)
+
     @cached_method
     def __len__(self):
         return self.shape[0]
-- 
2.43.0


From 1819c73ce1cd1eaf812219b5aaa2625047cba534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:21 +0000
Subject: [PATCH 023/134] fix: fbe keeps the attributes and history of the
 patch

---
 dascore/transform/fbe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dascore/transform/fbe.py b/dascore/transform/fbe.py
index 48ffaf9..03a057e 100644
--- a/dascore/transform/fbe.py
+++ b/dascore/transform/fbe.py
@@ -88,13 +88,13 @@ def fbe(
 
     patch = patch.pass_filter(**kwargs)
 
-    fbe = ((patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5).update(
-        attrs={"data_type": "frequency_band_energy"}
+    fbe = ((patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5).update_attrs(
+        data_type="frequency_band_energy"
     )
 
     if db:
-        fbe = (20 * fbe.log10()).update(
-            attrs={"data_type": "frequency_band_energy", "data_units": "dB"}
+        fbe = (20 * fbe.log10()).update_attrs(
+            data_type="frequency_band_energy", data_units="dB"
         )
 
     return fbe
-- 
2.43.0


From 2d48e3aa3f2cdf10a3d57263ec5114377327b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:34 +0000
Subject: [PATCH 024/134] fix: flip coordinates along all of the flipped
 dimensions

---
 dascore/core/coordmanager.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 9b9dade..96ca8aa 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -1176,10 +1176,13 @@ class CoordManager(DascoreBaseModel):
                 # Don't flip dimensional coords twice!
                 if associated == name:
                     continue
-                associated_coord = self.get_coord(associated)
-                dims = dim_map[associated]
-                axis = dims.index(name)
-                out[associated] = (dims, _flip_coord(associated_coord, axis))
+                # The coord may have already been flipped along another dim.
+                associated_dims = dim_map[associated]
+                default = (associated_dims, self.get_coord(associated))
+                associated_coord = out.get(associated, default)[1]
+                axis = associated_dims.index(name)
+                flipped = _flip_coord(associated_coord, axis)
+                out[associated] = (associated_dims, flipped)
 
         return self.update(**out)
 
-- 
2.43.0


From 0d2456c537c3d0da7681165b025c62798692f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:34 +0000
Subject: [PATCH 025/134] fix: next index of in-bounds values does not depend
 on out-of-bounds values

---
 dascore/core/coords.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 417784e..d19615b 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -934,7 +934,9 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             # For absolute mode with evenly sampled coords, compute index from value
             if hasattr(self, "step") and self.step is not None:
                 # Calculate index: (value - min) / step
-                indices = ((array - min_val) / self.step).astype(np.int64)
+                # Round as done for values in bounds (next index).
+                fraction = np.round((array - min_val) / self.step, decimals=10)
+                indices = np.ceil(fraction).astype(np.int64)
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
-- 
2.43.0


From 8ac429df8b1a02e7613730f76797939460368270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:34 +0000
Subject: [PATCH 026/134] fix: roll all coordinates of the rolled dimension

---
 dascore/proc/basic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 1227ee9..0e940da 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -703,9 +703,10 @@ def roll(patch, samples=False, update_coord=False, **kwargs):
 
     # update coords if True
     if update_coord:
-        roll_coord_arr = np.roll(coord.values, value)
-        new_coord = get_coord(data=roll_coord_arr, units=coord.units)
-        patch = patch.update_coords(**{dim: new_coord})
+        roll_inds = np.roll(np.arange(len(coord)), value)
+        # Also rolls the other coordinates associated with the dimension.
+        coords, _ = patch.coords.order(samples=True, **{dim: roll_inds})
+        return patch.new(data=roll_arr, coords=coords)
 
     return patch.new(data=roll_arr)
 
-- 
2.43.0


From f6df7025961a56d8f083b1ba86472c89ea72b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:34 +0000
Subject: [PATCH 027/134] fix: order by consecutive sample indices which
 include negative ones

---
 dascore/core/coords.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index d19615b..6f29a87 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -343,6 +343,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             raise CoordError(msg)
         # Filter out bad indices
         array = array[(array < len(self)) & (array >= -len(self))]
+        # Negative indices count from the end.
+        array = np.where(array < 0, array + len(self), array)
         return self[array], array
 
     def _select_by_value_array(self, array):
-- 
2.43.0


From 75ac73903debf7e05fd8bb17096286920d3441de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:03 +0000
Subject: [PATCH 028/134] fix: durations of a whole number of samples are not
 rounded up

---
 dascore/core/coords.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 6f29a87..825bd06 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -859,8 +859,10 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 nearest = np.round(ratio)
                 # Adding a relative float value to coord.min() and subtracting
                 # it back can introduce a small cancellation error. Snap only
-                # those float-coordinate ratios that fall within that drift.
-                tol = 10 * abs(np.spacing(self.min()) / self.step)
+                # those float-coordinate ratios that fall within that drift or
+                # within the rounding of the ratio itself (e.g., 3 * 3.7 / 3.7).
+                drift = abs(np.spacing(self.min()) / self.step)
+                tol = 10 * (drift + abs(np.spacing(ratio)))
                 if abs(ratio - nearest) <= tol:
                     ratio = nearest
             samples = int(np.ceil(ratio))
-- 
2.43.0


From b33fe548cf5fbf232e229ef27ef58de571e57190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:45 +0000
Subject: [PATCH 029/134] fix: sample counts of negative durations and
 descending coordinates

---
 dascore/core/coords.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 825bd06..fda97ef 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -853,8 +853,12 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             samples = int(value)
         else:
             compat_val = self._get_compatible_value(value, relative=True)
-            duration = compat_val - self.min()
-            ratio = duration / self.step
+            # Negative values are relative to the end of the coordinate.
+            magnitude = getattr(value, "magnitude", value)
+            negative = np.sign(to_float(magnitude)) < 0
+            duration = compat_val - (self.max() if negative else self.min())
+            # Durations don't depend on the direction of the coordinate.
+            ratio = duration / np.abs(self.step)
             if np.issubdtype(self.dtype, np.floating):
                 nearest = np.round(ratio)
                 # Adding a relative float value to coord.min() and subtracting
-- 
2.43.0


From 69c93b5b38eab1f6b407c3fc57f7d545b6a5acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:45 +0000
Subject: [PATCH 030/134] fix: time units of coordinates which start at the
 epoch

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index fda97ef..833abcf 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -279,7 +279,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if isinstance(data, dict):
             # This handles the coord range case.
             is_timey = False
-            if start := data.get("start"):
+            if (start := data.get("start")) is not None:
                 is_timey = is_timedelta64(start) or is_datetime64(start)
             elif (values := data.get("values")) is not None:
                 is_timey = dtype_time_like(values)
-- 
2.43.0


From 1e0d9a7d2f75837700a0888cb022380cc3b80bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:45 +0000
Subject: [PATCH 031/134] fix: keep units and dtype of emptied and partial
 coordinates

---
 dascore/core/coords.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 833abcf..e182811 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -766,7 +766,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             for ind in iterate(axes):
                 new_shape[ind] = 0
         data = np.empty(tuple(new_shape), dtype=self.dtype)
-        return get_coord(data=data)
+        return get_coord(data=data, units=self.units)
 
     def index(self, indexer, axis: int | None = None) -> Self:
         """
@@ -1057,7 +1057,7 @@ class CoordPartial(BaseCoord):
         # We init a temporary array just to get numpy to do the
         # indexing. There is probably a faster way but this is robust.
         dummy = np.empty(self.shape)[item]
-        return self.__class__(shape=dummy.shape)
+        return self.__class__(shape=dummy.shape, units=self.units, dtype=self.dtype)
 
     def _max(self):
         """Dummy funct to do nothing but raise."""
-- 
2.43.0


From 41b1e70048d2fe1615a75998c9c25970db9b81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:45 +0000
Subject: [PATCH 032/134] fix: null values are only equal to null values

---
 dascore/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index 9929174..aff0f47 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -139,7 +139,7 @@ def all_close(ar1, ar2):
     ar2_null = pd.isnull(ar2)
     try:
         close = np.isclose(ar1, ar2)
-        bools = close | ar1_null | ar2_null
+        bools = close | (ar1_null & ar2_null)
         return np.all(bools)
     except TypeError:
         return np.all(ar1 == ar2)
-- 
2.43.0


From 948ad3a635fa2fddebf8da0254b8358c11d4d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:40 +0000
Subject: [PATCH 033/134] fix: summaries of partial coordinates include units

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index e182811..d6b43fb 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1147,7 +1147,7 @@ class CoordPartial(BaseCoord):
             max=np.nan,
             step=np.nan,
             dtype=self.dtype,
-            units=None,
+            units=self.units,
         )
 
 
-- 
2.43.0


From e2aeaeb1d2e84457588fb5b7c99c005bbff85f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 034/134] fix: small updates of coordinates are not ignored

---
 dascore/core/coords.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index d6b43fb..fbb185d 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -810,10 +810,17 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
 
     def update(self, **kwargs):
         """Update parts of the coordinate."""
+
+        def _unchanged(new, old):
+            """Return True if the new value is exactly the old one."""
+            if is_array(new) or is_array(old):
+                return np.array_equal(new, old)
+            return bool(new == old)
+
         out = self
         info = self.model_dump()
         update_fields = {
-            i: v for i, v in kwargs.items() if not all_close(v, info.get(i))
+            i: v for i, v in kwargs.items() if not _unchanged(v, info.get(i))
         }
         units = update_fields.pop("units", None)
         _ = update_fields.pop("dtype", None)
-- 
2.43.0


From dd2d99bdc9cdfc1169e1e1971ab94a26c45f570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 035/134] fix: keep units when updating the values of a
 coordinate

---
 dascore/core/coords.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index fbb185d..9aef184 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -654,7 +654,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if data is None and values is None:
             return self
         data = values if data is None else data
-        units = kwargs.get("units")
+        units = kwargs.get("units", self.units)
         return get_coord(data=data, units=units)
 
     def new(self, **kwargs):
@@ -827,7 +827,9 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if update_fields:
             out = out.update_limits(**update_fields).update_data(**update_fields)
         if units is not None:
-            out = out.convert_units(units)
+            # New units describe the new data, if there is any.
+            new_data = {"data", "values"} & set(update_fields)
+            out = out.set_units(units) if new_data else out.convert_units(units)
         return out
 
     def get_sample_count(self, value, samples=False, enforce_lt_coord=False) -> int:
-- 
2.43.0


From a9791d2b3a53eddc3eae78abd29e6e76e9747294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:25 +0000
Subject: [PATCH 036/134] fix: find labels of ranges whose step is small
 compared to their values

---
 dascore/core/coords.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 9aef184..fa8dea7 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -950,10 +950,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 return array if input_array_like else array[0]
             # For absolute mode with evenly sampled coords, compute index from value
             if hasattr(self, "step") and self.step is not None:
-                # Calculate index: (value - min) / step
-                # Round as done for values in bounds (next index).
-                fraction = np.round((array - min_val) / self.step, decimals=10)
-                indices = np.ceil(fraction).astype(np.int64)
+                # Use the same rule as for values in bounds (next index).
+                indices = self._get_index(array, forward=True)
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
@@ -1343,9 +1341,19 @@ class CoordRange(BaseCoord):
         array = np.atleast_1d(value)
         func = np.ceil if forward else np.floor
         start, step = self.start, self.step
-        # Due to float weirdness we need a little bit of a fudge factor here.
-        fraction = func(np.round((array - start) / step, decimals=10))
-        out = fraction.astype(np.int64)
+        diff = array - start
+        if is_timedelta64(diff):
+            # Times are exact, so the division should be too.
+            out = -(-diff // step) if forward else diff // step
+        else:
+            fraction = diff / step
+            nearest = np.round(fraction)
+            # Due to float weirdness we need a little bit of a fudge factor here.
+            # It needs to be larger when the step is small compared to the values.
+            magnitude = np.maximum(np.abs(array), np.abs(start)).astype(np.float64)
+            fudge = 1e-10 + 4 * np.abs(np.spacing(magnitude) / step)
+            is_label = np.abs(fraction - nearest) <= np.minimum(fudge, 0.1)
+            out = np.where(is_label, nearest, func(fraction)).astype(np.int64)
         lt_forward = (out < 0) & forward
         gt_back = (out >= len(self)) & (not forward)
         bad_values = lt_forward | gt_back
-- 
2.43.0


From b123ea1ebd7845a7b5ca761c6e67b8a04c6c95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:25 +0000
Subject: [PATCH 037/134] fix: next index of the first label of a monotonic
 coordinate

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index fa8dea7..8de73e8 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1645,7 +1645,7 @@ class CoordMonotonicArray(CoordArray):
         else:
             right = np.searchsorted(values, new_value, side="right")
             left = np.searchsorted(values, new_value, side="left")
-        left_ok = (left < len(self)) & (left > 0)
+        left_ok = (left < len(self)) & (left >= 0)
         eq = left_ok & (values.take(left, mode="clip") == new_value)
         out = right if forward else left
         # where equal it should also be left values. This makes the function
-- 
2.43.0


From e38c2d7ceffe40a2d4fd1b618cd8398de6d75dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:32 +0000
Subject: [PATCH 038/134] fix: value ranges can be selected from empty
 coordinates

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 8de73e8..8ac12a2 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1120,7 +1120,8 @@ class CoordPartial(BaseCoord):
             if not is_array(args):
                 args = self.get_slice_tuple(args, relative=False)
                 # Check if the select has no effect and return self or raise.
-                if all(pd.isnull(x) for x in args):
+                # There is nothing left to select from empty coordinates.
+                if self.degenerate or all(pd.isnull(x) for x in args):
                     return self, slice(None)
             raise e
         if is_array(args):
-- 
2.43.0


From a59e77636874bfd1bb25663aefdb54c19665503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:12 +0000
Subject: [PATCH 039/134] fix: align patches which only differ by the order of
 their dimensions

---
 dascore/utils/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index b1abfd7..25c3685 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -951,7 +951,8 @@ def align_patch_coords(
         The second patch.
     """
     # Fast path for no alignment needed
-    if patch1.coords == patch2.coords:
+    # Coordinate managers are equal regardless of dimension order.
+    if patch1.coords == patch2.coords and patch1.dims == patch2.dims:
         return patch1, patch2
     shared_dims = set(patch1.dims) & set(patch2.dims)
     if not shared_dims:
-- 
2.43.0


From 3eca911c8533bf0b1d97bd815bcb81b56078ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:12 +0000
Subject: [PATCH 040/134] fix: align float ranges which share labels up to
 rounding errors

---
 dascore/core/coords.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 8ac12a2..6745c2b 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -453,6 +453,9 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if isinstance(self, CoordPartial) or isinstance(other, CoordPartial):
             valid_non_coord(self, other)
             return self, other, slice(None), slice(None)
+        # The labels of float ranges on the same grid may differ by rounding.
+        if (slices := _get_shared_grid_slices(self, other)) is not None:
+            return self[slices[0]], other[slices[1]], *slices
         data1, data2 = self.data, other.data
         intersection = np.intersect1d(data1, data2)
         coord1, slice1 = self.order(intersection)
@@ -1159,6 +1162,29 @@ class CoordPartial(BaseCoord):
         )
 
 
+def _get_shared_grid_slices(coord1, coord2) -> tuple[slice, slice] | None:
+    """
+    Get slices for the overlap of two float ranges which share the same grid.
+
+    Returns None if the coordinates aren't float ranges, or don't overlap, or
+    their labels differ by more than rounding errors.
+    """
+    coords = (coord1, coord2)
+    if not all(isinstance(x, CoordRange) for x in coords):
+        return None
+    if not all(np.issubdtype(x.dtype, np.floating) for x in coords):
+        return None
+    step = coord1.step
+    offset = (coord2.start - coord1.start) / step
+    ind1 = int(np.round(max(offset, 0)))
+    ind2 = int(np.round(max(-offset, 0)))
+    length = min(len(coord1) - ind1, len(coord2) - ind2)
+    drift = np.abs((coord2.step - step) / step) * len(coord2)
+    if length <= 0 or max(np.abs(offset - (ind1 - ind2)), drift) > 1e-6:
+        return None
+    return slice(ind1, ind1 + length), slice(ind2, ind2 + length)
+
+
 class CoordRange(BaseCoord):
     """
     A coordinate represent a range of evenly sampled data.
-- 
2.43.0


From 9d8128892210c3275fe61ba48d3ee214776eb17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:46 +0000
Subject: [PATCH 041/134] fix: aligning patches re-orders the coordinates of
 aligned dimensions

---
 dascore/utils/patch.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 25c3685..b2916da 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -937,6 +937,23 @@ def _get_dx_or_spacing_and_axes(
     return tuple(out), tuple(axes)
 
 
+def _update_aligned_coords(cm, new_coords, indexers):
+    """Update dimensions, and re-order the coordinates associated with them."""
+    out = dict(new_coords)
+    for name, dims in cm.dim_map.items():
+        aligned = [x for x in dims if x in new_coords]
+        # Coordinates are dropped if the length of their dimensions changed.
+        if name in cm.dims or any(
+            len(new_coords[x]) != len(cm.coord_map[x]) for x in aligned
+        ):
+            continue
+        coord = cm.coord_map[name]
+        for dim in aligned:
+            coord = coord.index(indexers[cm.get_axis(dim)], axis=dims.index(dim))
+        out[name] = (dims, coord)
+    return cm.update(**out)
+
+
 def align_patch_coords(
     patch1: PatchType, patch2: PatchType
 ) -> tuple[PatchType, PatchType]:
@@ -982,8 +999,8 @@ def align_patch_coords(
     if not (new_coords_1 or new_coords_2):
         return patch1, patch2
     # Update coordinate managers and reshape arrays, return new patches.
-    coord1 = patch1.coords.update(**new_coords_1)
-    coord2 = patch2.coords.update(**new_coords_2)
+    coord1 = _update_aligned_coords(patch1.coords, new_coords_1, align_1)
+    coord2 = _update_aligned_coords(patch2.coords, new_coords_2, align_2)
     array1 = _apply_union_indexers(tuple(align_1), patch1.data)
     array2 = _apply_union_indexers(tuple(align_2), patch2.data)
     out1 = patch1.new(data=array1, coords=coord1)
-- 
2.43.0


From 5c6b1859834b64e85d2c32cfacf88246d6d42ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:46 +0000
Subject: [PATCH 042/134] fix: align float ranges of opposite direction

---
 dascore/core/coords.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 6745c2b..cc8181b 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1174,6 +1174,8 @@ def _get_shared_grid_slices(coord1, coord2) -> tuple[slice, slice] | None:
         return None
     if not all(np.issubdtype(x.dtype, np.floating) for x in coords):
         return None
+    if reverse := (coord1.step > 0) != (coord2.step > 0):
+        coord2 = coord2[::-1]
     step = coord1.step
     offset = (coord2.start - coord1.start) / step
     ind1 = int(np.round(max(offset, 0)))
@@ -1182,7 +1184,12 @@ def _get_shared_grid_slices(coord1, coord2) -> tuple[slice, slice] | None:
     drift = np.abs((coord2.step - step) / step) * len(coord2)
     if length <= 0 or max(np.abs(offset - (ind1 - ind2)), drift) > 1e-6:
         return None
-    return slice(ind1, ind1 + length), slice(ind2, ind2 + length)
+    slice1, slice2 = slice(ind1, ind1 + length), slice(ind2, ind2 + length)
+    if reverse:
+        start = len(coord2) - 1 - ind2
+        stop = start - length
+        slice2 = slice(start, stop if stop >= 0 else None, -1)
+    return slice1, slice2
 
 
 class CoordRange(BaseCoord):
-- 
2.43.0


From 18887e4dc768d429a17288828909f34009d6b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:42 +0000
Subject: [PATCH 043/134] fix: the index of a scalar quantity is a scalar

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index cc8181b..81e71ed 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -925,7 +925,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if not self.sorted:
             msg = f"Coords must be sorted to use get_next_index, {self} is not."
             raise CoordError(msg)
-        input_array_like = isinstance(value, Sized)
+        # Note: quantities are always Sized, even if they hold a scalar.
+        input_array_like = isinstance(getattr(value, "magnitude", value), Sized)
         array = np.atleast_1d(value)
 
         # handle samples
-- 
2.43.0


From db6da56cf31674fb9735d8d09a8a787504d3a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:07 +0000
Subject: [PATCH 044/134] fix: correlate labels sources given as quantities in
 the coordinate's units

---
 dascore/proc/correlate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/correlate.py b/dascore/proc/correlate.py
index 0d63fec..ceceda0 100644
--- a/dascore/proc/correlate.py
+++ b/dascore/proc/correlate.py
@@ -9,6 +9,7 @@ import numpy as np
 import dascore as dc
 from dascore.constants import PatchType
 from dascore.exceptions import ParameterError
+from dascore.units import Quantity
 from dascore.utils.patch import (
     get_dim_axis_value,
     patch_function,
@@ -218,7 +219,8 @@ def correlate(
     fft_patch_array = patch.data[..., None]
     fft_prod = fft_patch_array * np.conj(source_fft)
     # Create frequency domain patch with results
-    source = getattr(source, "magnitude", source)  # strips units
+    if isinstance(source, Quantity):  # labels are in the units of the coordinate
+        source = patch.get_coord(dim)._get_compatible_value(source)
     new_coord = dc.get_coord(values=np.atleast_1d(source))
     dim_name = f"source_{dim}"
     cm = patch.coords.update(**{dim_name: (dim_name, new_coord)})
-- 
2.43.0


From 2f0ed8235ca651e020f448d7a942d53e7ca7b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 045/134] fix: merge coordinates attached to the merged
 dimension from their own values

---
 dascore/utils/coordmanager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dascore/utils/coordmanager.py b/dascore/utils/coordmanager.py
index 4e6ef04..f04686e 100644
--- a/dascore/utils/coordmanager.py
+++ b/dascore/utils/coordmanager.py
@@ -112,7 +112,7 @@ def merge_coord_managers(
         """Get the merged coordinates."""
         out = {}
         for coord_name in coords_to_merge:
-            merge_coords = [x.coord_map[dim] for x in managers]
+            merge_coords = [x.coord_map[coord_name] for x in managers]
             axis = managers[0].dim_map[coord_name].index(dim)
             if len(units := {x.units for x in merge_coords}) != 1:
                 # TODO: we might try to convert all the units to a common
@@ -122,11 +122,12 @@ def merge_coord_managers(
                     f"share the same units. Units found are: {set(units)}"
                 )
                 raise CoordMergeError(msg)
-            snap_coords = _snap_coords(merge_coords)
-            data = [x.data for x in snap_coords]
-            dims = managers[0].dim_map[dim]
-            new_data = np.concatenate(data, axis=axis)
-            out[coord_name] = (dims, new_data)
+            if coord_name == dim:
+                merge_coords = _snap_coords(merge_coords)
+            dims = managers[0].dim_map[coord_name]
+            new_data = np.concatenate([x.data for x in merge_coords], axis=axis)
+            new_coord = dc.get_coord(data=new_data, units=next(iter(units)))
+            out[coord_name] = (dims, new_coord)
         return out
 
     def _get_new_coords(managers) -> dict[str, tuple[tuple[str, ...], ArrayLike]]:
-- 
2.43.0


From aae57b125ee99e5f163dfb477cc6322cae9f0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 046/134] fix: concatenate keeps the coordinate's units

---
 dascore/utils/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index b2916da..2953ae8 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -1342,7 +1342,8 @@ def concatenate_patches(
         else:
             array_list = [x.get_array(dim) for x in patch_list]
             array = np.concatenate(array_list, axis=0)
-            coords = coords.update(**{dim: array})
+            units = coords.coord_map[dim].units
+            coords = coords.update(**{dim: dc.get_coord(data=array, units=units)})
         return coords
 
     dim, val = _get_dim_and_value(kwargs)
-- 
2.43.0


From 9b682b2c0d41a70bbf04e4aa1793d3eebf34b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 047/134] fix: chunk conserves samples of overlapping, nested,
 trimmed and off-grid sources

---
 dascore/core/spool.py  |  20 ++++++--
 dascore/utils/chunk.py | 108 +++++++++++++++++++++++++----------------
 dascore/utils/pd.py    |  91 ++++++++++++++++++++++++----------
 3 files changed, 149 insertions(+), 70 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 406c426..ff4dc6a 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -462,7 +462,7 @@ class DataFrameSpool(BaseSpool):
             new_df = self._df.iloc[item]
             inst, source = self._instruction_df, self._source_df
             new_inst = inst[inst["current_index"].isin(new_df.index)]
-            new_source = source.loc[new_inst.index]
+            new_source = source.loc[new_inst.index.unique()]
             out = self.new_from_df(
                 df=new_df,
                 instruction_df=new_inst,
@@ -562,7 +562,7 @@ class DataFrameSpool(BaseSpool):
             select_kwargs = {
                 i: v
                 for i, v in kwargs.items()
-                if i in patch.dims or i in patch.coords.coord_map
+                if i in patch.dims or len(patch.coords.dim_map.get(i, ())) == 1
             }
         else:
             select_kwargs = self._select_kwargs
@@ -690,7 +690,16 @@ class DataFrameSpool(BaseSpool):
         **kwargs,
     ) -> Self:
         """{doc}"""
-        df = self._source_df.drop(columns=list(self._drop_columns), errors="ignore")
+        # Each (trimmed) source of the current patches is a source of the chunks.
+        inst = self._instruction_df
+        if inst is not None and len(inst):
+            inst = inst[inst["current_index"].isin(self._df.index)]
+            other = self._source_df.drop(columns=inst.columns, errors="ignore")
+            source = inst.drop(columns="current_index").join(other)
+            source = source.reset_index(drop=True)
+        else:
+            source = self._source_df
+        df = source.drop(columns=list(self._drop_columns), errors="ignore")
         chunker = ChunkManager(
             overlap=overlap,
             keep_partial=keep_partial,
@@ -705,9 +714,12 @@ class DataFrameSpool(BaseSpool):
             instructions = None
         else:
             instructions = chunker.get_instruction_df(in_df, out_df)
+            # Remove chunks without any samples (eg in a gap).
+            if not out_df.empty:
+                out_df = out_df[out_df.index.isin(instructions["current_index"])]
         return self.new_from_df(
             out_df,
-            source_df=self._source_df,
+            source_df=source,
             instruction_df=instructions,
             merge_kwargs={"conflicts": conflict, "snap_coords": snap_coords},
         )
diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 25ad36f..c732ecd 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -16,8 +16,10 @@ from dascore.utils.attrs import validate_conflict
 from dascore.utils.docs import compose_docstring
 from dascore.utils.misc import all_diffs_close_enough, get_middle_value
 from dascore.utils.pd import (
+    _get_tolerant_limits,
     _instructions_modified,
     _remove_overlaps,
+    _to_samples,
     get_column_names_from_dim,
     get_dim_names_from_columns,
     get_interval_columns,
@@ -84,37 +86,45 @@ def get_intervals(
         length = to_timedelta64(length)
     # get variable and perform checks
     overlap = length * 0 if not overlap else overlap
-    step = length * 0 if pd.isnull(step) else step
+    step = length * 0 if pd.isnull(step) else abs(step)
     # Check for errors
-    if overlap > length:
+    if overlap >= length:
         msg = "Cant chunk when overlap is greater than chunk size"
         raise ParameterError(msg)
-    # If the step is known, we need to account for it in the total duration
-    # See 474.
-    _raw_duration = stop - start
-    duration = _raw_duration + step if step is not None else _raw_duration
-    if duration < length and not keep_partials:
-        msg = "Cant chunk when data interval is less than chunk size. "
-        raise ChunkError(msg)
     # reference with no overlap
     new_step = length - overlap
-    reference = np.arange(start, stop + new_step, step=new_step)
-    # Since we just add to get stop values we need to remove anything
-    # that is within a sample of stopping value (otherwise that segment
-    # will have no data).
-    reference = reference[(reference + step) <= stop]
-    # we subtract step to avoid overlaps in segments. This can mean segments
-    # are ~ one sample shorter than those requested.
-    ends = reference + length - step
-    starts = reference
+    if step:
+        # When the sampling interval is known, the segments start and end on
+        # samples; each sample belongs to the segments its label falls into.
+        # The small number keeps rounding errors from moving the limits.
+        last = np.round((stop - start) / step)
+        count = np.arange(np.floor(last / (new_step / step) + 1e-6) + 1)
+        first_ind = np.ceil(count * (new_step / step) - 1e-6).astype(np.int64)
+        last_ind = np.ceil(count * (new_step / step) + length / step - 1e-6) - 1
+        keep = (first_ind <= last) & (last_ind >= first_ind)
+        first_ind, last_ind = first_ind[keep], last_ind[keep].astype(np.int64)
+        starts, ends = start + first_ind * step, start + last_ind * step
+        ends[last_ind == last] = stop
+        bad_ends = last_ind > last
+        # A partial with only the last sample isn't a segment of its own, unless
+        # there is no other.
+        lone = bad_ends & (first_ind == last) & (first_ind > 0)
+        starts, ends, bad_ends = starts[~lone], ends[~lone], bad_ends[~lone]
+    else:
+        reference = np.arange(start, stop + new_step, step=new_step)
+        # Remove segments which would have no data.
+        starts = reference[reference < stop]
+        ends = starts + length
+        bad_ends = ends > stop
     # trim end to not surpass stop
-    bad_ends = ends > stop
     if bad_ends.any():
         if not keep_partials:
-            ends_filt = ends <= stop
-            ends, starts = ends[ends_filt], starts[ends_filt]
+            ends, starts = ends[~bad_ends], starts[~bad_ends]
         else:
             ends[bad_ends] = stop
+    if not len(starts):
+        msg = "Cant chunk when data interval is less than chunk size. "
+        raise ChunkError(msg)
     return np.stack([starts, ends]).T
 
 
@@ -217,7 +227,7 @@ class ChunkManager:
         start_sorted, stop_sorted, step_sorted = (
             start.iloc[args],
             stop.iloc[args],
-            step.iloc[args],
+            step.iloc[args].abs(),
         )
         # next get cummax of endtimes and detect gaps
         stop_cum_max = stop_sorted.cummax()
@@ -238,8 +248,10 @@ class ChunkManager:
         sort_args = np.argsort(col)
         sorted_col = col[sort_args]
         roll_forward = np.roll(sorted_col, shift=1)
-        diff = (sorted_col - roll_forward) / sorted_col
-        out_of_threshold = diff > tolerance
+        diff = (sorted_col - roll_forward) / np.abs(sorted_col)
+        # Missing steps (sorted to the end) are not similar to any other.
+        null = pd.isnull(sorted_col)
+        out_of_threshold = (diff > tolerance) | (null & ~np.roll(null, shift=1))
         group_number = numpy.cumsum(out_of_threshold)
         # undo sorting
         out = pd.Series(group_number[np.argsort(sort_args)], index=step.index)
@@ -317,13 +329,11 @@ class ChunkManager:
         return out
 
     def _get_chunk_overlap_inds(self, src1, src2, chu1, chu2):
-        """Get an index mapping from source to chunk."""
-        chunk_starts = np.searchsorted(src1, chu1, side="right") - 1
-        chunk_ends = np.searchsorted(src2, chu2, side="left")
-        # Ensure no chunks run off the end of the source.
-        assert np.all(chunk_ends < len(src1)), "Invalid chunk range found"
-        # add 1 to end so it is an exclusive end range
-        return np.stack([chunk_starts, chunk_ends + 1], axis=1)
+        """Get an index mapping from source to chunk (exclusive end range)."""
+        chunk_starts = np.searchsorted(src2, chu1, side="left")
+        chunk_ends = np.searchsorted(src1, chu2, side="right")
+        # Chunks can lie in a gap, then they have no source.
+        return np.stack([chunk_starts, np.maximum(chunk_starts, chunk_ends)], axis=1)
 
     def _get_source_and_chunk_inds(self, chunk2src_inds, s_index, c_index):
         """Get ndarrays of chunk index, source index."""
@@ -358,10 +368,12 @@ class ChunkManager:
         # need to make sure we don't have overlaps in source df. This implicitly
         # handles merging.
         sub_source = _remove_overlaps(sub_source, self._name)
-        src1, src2, _src_step = get_interval_columns(
+        src1, src2, src_step = get_interval_columns(
             sub_source, self._name, arrays=True
         )
         chu1, chu2, _chu_step = get_interval_columns(sub_chunk, self._name, arrays=True)
+        # Samples belong to the chunk whose labels they are closest to.
+        chu1, chu2 = _get_tolerant_limits(chu1, chu2, src_step[0])
         dims = get_dim_names_from_columns(sub_source)
         cols2keep = get_column_names_from_dim(dims)
         # next get index range for which chunk times belong to.
@@ -376,8 +388,10 @@ class ChunkManager:
         # get potential start/stop times.
         starts = np.stack([src1[source_inds], chu1[chunk_inds]], axis=1)
         ends = np.stack([src2[source_inds], chu2[chunk_inds]], axis=1)
-        end_values = np.min(ends, axis=1)
-        start_values = np.max(starts, axis=1)
+        # These need to be labels of the source.
+        origin, step = src1[source_inds], src_step[source_inds]
+        end_values = _to_samples(np.min(ends, axis=1), origin, step, forward=False)
+        start_values = _to_samples(np.max(starts, axis=1), origin, step)
         data_dict = {
             min_name: start_values,
             max_name: end_values,
@@ -425,12 +439,22 @@ class ChunkManager:
         df = pd.concat(out, axis=0).reset_index(drop=True).set_index("source_index")
         return df
 
-    def _get_col_group(self, df, cont_g):
+    def _get_col_group(self, df, samp_g):
         """Get group columns based on common columns."""
         cols = list(self._group_columns or [])
         columns = [x for x in cols if x in df.columns]
-        col_g = cont_g * 0 if not columns else df.groupby(columns).ngroup()
-        return col_g
+        if not columns:
+            return samp_g * 0
+        return df.groupby(columns, dropna=False).ngroup()
+
+    def _get_continuity_of_groups(self, groups, start, stop, step, tolerance=None):
+        """Get the continuity group number of the members of each group."""
+        out = pd.Series(0, index=start.index)
+        for ind in groups:
+            out.loc[ind] = self._get_continuity_group_number(
+                start.loc[ind], stop.loc[ind], step.loc[ind], tolerance=tolerance
+            )
+        return out
 
     def _get_final_group(self, samp_g, col_g, cont_g):
         """Combine grouping components into final group labels."""
@@ -455,16 +479,18 @@ class ChunkManager:
         Get the group designation for df. This accounts for both time intervals
         being consistent and group columns matching.
         """
-        cont_g = self._get_continuity_group_number(start, stop, step)
         samp_g = self._get_sampling_group_num(step)
-        col_g = self._get_col_group(df, cont_g)
+        col_g = self._get_col_group(df, samp_g)
+        # Only patches which can be merged are able to fill gaps.
+        sub_groups = list(start.groupby([samp_g, col_g]).groups.values())
+        cont_g = self._get_continuity_of_groups(sub_groups, start, stop, step)
         group = self._get_final_group(samp_g, col_g, cont_g)
 
         # Check for final merges that only occur because of a non-default
         # tolerance. See #662.
         if self._tolerance > _DEFAULT_TOLERANCE:
-            default_cont_g = self._get_continuity_group_number(
-                start, stop, step, tolerance=_DEFAULT_TOLERANCE
+            default_cont_g = self._get_continuity_of_groups(
+                sub_groups, start, stop, step, tolerance=_DEFAULT_TOLERANCE
             )
             if self._groups_merge_default_groups(group, default_cont_g):
                 msg = (
diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 07238f4..db0067c 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -309,13 +309,20 @@ def adjust_segments(df, ignore_bad_kwargs=False, **kwargs):
     # find slice kwargs, get series corresponding to interval columns
     for name, range_tuple in yield_range_tuple_from_kwargs(out, kwargs):
         val_min, val_max = order_range_tuple(range_tuple)
-        start, stop, _ = get_interval_columns(out, name)
+        start, stop, step = get_interval_columns(out, name)
         min_val = val_min if val_min is not None else start.min()
         max_val = val_max if val_max is not None else stop.max()
         too_small = start < min_val
         too_large = stop > max_val
-        out.loc[too_large, too_large.name] = max_val
-        out.loc[too_small, too_small.name] = min_val
+        # The new limits are the first and last samples in the range, if any.
+        new_min = _to_samples(min_val, start.values, step.values)
+        new_max = _to_samples(max_val, start.values, step.values, forward=False)
+        new_min = np.where(too_small, new_min, start)
+        new_max = np.where(too_large, new_max, stop)
+        has_samples = new_min <= new_max
+        new_min, new_max = pd.Series(new_min, out.index), pd.Series(new_max, out.index)
+        out.loc[too_large, too_large.name] = new_max.where(has_samples, max_val)
+        out.loc[too_small, too_small.name] = new_min.where(has_samples, min_val)
         not_modified &= ~(too_small.values | too_large.values)
     return out.assign(_modified=~not_modified)
 
@@ -472,38 +479,72 @@ def _model_list_to_df(mod_list: Sequence[dc.PatchAttrs], exclude=None) -> pd.Dat
     return df
 
 
-def _remove_overlaps(df, name):
-    """.
-    Remove overlaps in col, where col_min and col_max should exist in df.
+def _get_tolerant_limits(start, stop, step):
+    """
+    Extend limits by (less than) half a sample.
+
+    Contiguous intervals remain disjoint when extended.
+    """
+    step = np.abs(step)
+    if pd.isnull(step) or not step:
+        return start, stop
+    if np.issubdtype(np.asarray(step).dtype, np.timedelta64):
+        step = to_timedelta64(step)
+        return start - step // 2, stop + (step - np.timedelta64(1, "ns")) // 2
+    return start - step / 2, np.nextafter(stop + step / 2, -np.inf)
+
 
-    Assumes df is sorted.
+def _to_samples(values, start, step, forward=True):
     """
+    Move values to the next (or previous) sample at start + n * step.
 
-    def _get_step_values(df, step_name):
-        array = np.roll(df[step_name].values, 1)
-        isna = pd.isnull(array)
-        zeros = np.zeros_like(array, dtype=array.dtype)
-        return np.where(~isna, array, zeros)
+    Values are returned as they are if step is null.
+    """
+    step = np.abs(np.asarray(step))
+    valid = ~pd.isnull(step)
+    one = np.ones((), dtype=step.dtype)
+    if np.issubdtype(start.dtype, np.datetime64):
+        values = to_datetime64(values)
+    elif np.issubdtype(start.dtype, np.timedelta64):
+        values = to_timedelta64(values)
+    ratio = (values - start) / np.where(valid, step, one)
+    # The small number keeps rounding errors from moving to another sample.
+    count = np.ceil(ratio - 1e-6) if forward else np.floor(ratio + 1e-6)
+    count = np.where(valid, count, 0).astype(np.int64)
+    return np.where(valid, start + count * np.where(valid, step, one), values)
 
-    def _get_correct_starts(start, stop, df, step_name):
-        step = _get_step_values(df, step_name)
-        stop_roll = np.roll(stop, 1)
-        start_lt_stop = start <= stop_roll
-        start_lt_stop[0] = False  # remove roll artifact; [0] should be start[0]
-        adjusted = stop_roll + step
-        return np.where(start_lt_stop, adjusted, start)
 
+def _remove_overlaps(df, name):
+    """.
+    Remove overlaps in col, where col_min and col_max should exist in df.
+
+    Assumes df is sorted. Rows which are entirely covered by others are dropped.
+    """
     min_name, max_name, step_name = f"{name}_min", f"{name}_max", f"{name}_step"
     assert df[min_name].is_monotonic_increasing, "df must be sorted"
     start = df[min_name].values
     stop = df[max_name].values
-    # Add step to stop roll so we don't get 1 sample of overlap
-    corrected_starts = _get_correct_starts(start, stop, df, step_name)
-    # wrap around in roll gives wrong start value, correct it.
-    corrected_starts[0] = start[0]
+    # The limit covered by all the previous rows.
+    covered = np.maximum.accumulate(stop)[:-1]
+    is_time = np.issubdtype(start.dtype, np.datetime64)
+    is_time |= np.issubdtype(start.dtype, np.timedelta64)
+    step = np.abs(df[step_name].values[1:])
+    if is_time:  # Samples within half a step are already covered.
+        half = np.where(pd.isnull(step), np.timedelta64(1, "ns"), step - step // 2)
+        uncovered = covered + half
+    else:
+        half = np.where(pd.isnull(step), 0, step / 2)
+        uncovered = np.nextafter(covered + half, np.inf)
+    uncovered = _to_samples(uncovered, start[1:], step)
+    corrected = start.copy()
+    # Account for rounding errors when checking for overlaps.
+    tolerance = np.where(pd.isnull(step), np.zeros_like(step), step) / 1000
+    is_covered = start[1:] - covered <= tolerance
+    corrected[1:] = np.where(is_covered, uncovered, start[1:])
     old_modified = _column_or_value(df, "_modified", False)
-    _modified = old_modified | (corrected_starts != start)
-    return df.assign(**{min_name: corrected_starts, "_modified": _modified})
+    _modified = old_modified | (corrected != start)
+    out = df.assign(**{min_name: corrected, "_modified": _modified})
+    return out[corrected <= stop]
 
 
 def _column_or_value(df, col, value):
-- 
2.43.0


From 5ca3e6005b625aecb933ae4e0b886940e70d3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:18 +0000
Subject: [PATCH 048/134] fix: patches written to one file never replace each
 other

---
 dascore/io/dasdae/core.py  |  7 +++++--
 dascore/io/dasdae/utils.py | 25 +++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index 475da97..462ddcb 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -22,6 +22,7 @@ from dascore.utils.patch import get_patch_names
 from .utils import (
     _get_attrs,
     _get_contents_from_patch_groups,
+    _get_group_name,
     _kwargs_empty,
     _matches_attr_filters,
     _read_patch,
@@ -87,9 +88,11 @@ class DASDAEV1(FiberIO):
             resource.create_group(resource.root, "waveforms")
         waveforms = resource.get_node("/waveforms")
         # write new patches to file
-        patch_names = get_patch_names(patches).values
-        for patch, name in zip(patches, patch_names):
+        written = set()
+        for patch in patches:
+            name = _get_group_name(patch, waveforms, written)
             _save_patch(patch, waveforms, resource, name)
+            written.add(name)
         indexer = HDFPatchIndexManager(resource)
         if index or indexer.has_index:
             df = self._get_patch_summary(patches)
diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 1cde1e1..40c3396 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -11,6 +11,7 @@ from dascore.core.attrs import PatchAttrs
 from dascore.core.coordmanager import get_coord_manager
 from dascore.core.coords import get_coord
 from dascore.utils.misc import suppress_warnings
+from dascore.utils.patch import get_patch_names
 from dascore.utils.pd import filter_df
 from dascore.utils.time import to_int
 
@@ -21,6 +22,30 @@ _KWARG_NON_KEYS = {"file_version", "file_format", "path", "_modified"}
 # --- Functions for writing DASDAE format
 
 
+def _get_group_name(patch, wave_group, written):
+    """
+    Get the name of the group for the patch.
+
+    The name of an existing group is only returned if it has the same patch.
+    """
+    base = name = get_patch_names(patch).iloc[0].replace("/", "_")
+    count = 0
+    while name in written or (
+        name in wave_group and not _has_patch(wave_group._f_get_child(name), patch)
+    ):
+        count += 1
+        name = f"{base}__{count}"
+    return name
+
+
+def _has_patch(patch_group, patch):
+    """Return True if the group has the same attributes and coordinates."""
+    attrs = _get_attrs(patch_group)
+    if attrs != patch.attrs or _get_dims(patch_group) != patch.dims:
+        return False
+    return _get_coords(patch_group, patch.dims, attrs) == patch.coords
+
+
 def _create_or_get_group(h5, group, name):
     """Create a new group or get existing."""
     try:
-- 
2.43.0


From 3971efb79bfc5f077433b61d96fe1da065bd01bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:18 +0000
Subject: [PATCH 049/134] fix: file and directory spools load the patch with
 the listed extents

---
 dascore/clients/dirspool.py  |  2 +-
 dascore/clients/filespool.py |  2 +-
 dascore/core/spool.py        | 15 +++++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index a4ba73e..b77bebf 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -137,7 +137,7 @@ class DirectorySpool(DataFrameSpool):
                 f"requested range; it may have been trimmed to nothing."
             )
             raise MissingPatchError(msg)
-        return patches[0]
+        return self._get_best_patch(patches, kwargs)
 
     def _read_patches(self, kwargs) -> list[dc.Patch] | None:
         """
diff --git a/dascore/clients/filespool.py b/dascore/clients/filespool.py
index 3cc4d38..b76c604 100644
--- a/dascore/clients/filespool.py
+++ b/dascore/clients/filespool.py
@@ -74,7 +74,7 @@ class FileSpool(DataFrameSpool):
                 f"it may have been trimmed to nothing."
             )
             raise MissingPatchError(msg)
-        return patches[0]
+        return self._get_best_patch(patches, kwargs)
 
     @compose_docstring(doc=BaseSpool.update.__doc__)
     def update(self: SpoolType, progress: PROGRESS_LEVELS = "standard") -> Self:
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index ff4dc6a..e63c962 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -667,6 +667,21 @@ class DataFrameSpool(BaseSpool):
         )
         return current, source, instruction
 
+    def _get_best_patch(self, patches, kwargs) -> dc.Patch:
+        """Get the patch with the requested extents, or the first if there is none."""
+
+        def _has_extents(patch):
+            ranges = {x: kwargs.get(x) for x in patch.dims}
+            return all(
+                (coord.min(), coord.max()) == tuple(ranges[dim])
+                for dim, coord in patch.coords.coord_map.items()
+                if isinstance(ranges.get(dim), Sequence) and len(coord)
+            )
+
+        if len(patches) > 1:
+            return next((x for x in patches if _has_extents(x)), patches[0])
+        return patches[0]
+
     def _df_to_dict_list(self, df):
         """
         Convert the dataframe to a list of dicts for iteration.
-- 
2.43.0


From 84659829f4cc3a01548a63467ce13ffd13b8165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:07 +0000
Subject: [PATCH 050/134] fix: chunked spools list the attributes their patches
 share

---
 dascore/utils/chunk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index c732ecd..a52cf7e 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -308,10 +308,10 @@ class ChunkManager:
             prefix = col.split("_")[0]
             # If we have specified to ignore or remove conflicting attrs
             # we don't need to check them here, but we do still check dims.
-            if self._attr_conflict != "raise" and prefix not in dims:
-                continue
             vals = merger[col].unique()
             if len(vals) > 1:
+                if self._attr_conflict != "raise" and prefix not in dims:
+                    continue
                 msg = (
                     f"Cannot merge on dim {self._name} because all values for "
                     f"{col} are not equal. Consider using the `conflict` "
-- 
2.43.0


From c55c2f32c775442b202b4c0dc0b0fa59bef2acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:07 +0000
Subject: [PATCH 051/134] fix: string queries on attributes which some patches
 lack

---
 dascore/utils/pd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index db0067c..8a05ca6 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -126,7 +126,8 @@ def _filter_equality(query_dict, df, bool_index):
     for key, val in query_dict.items():
         if isinstance(val, str):
             regex = get_regex(val)
-            new = df[key].str.match(regex).values
+            # missing values never match.
+            new = df[key].str.match(regex).eq(True).fillna(False).values.astype(bool)
             bool_index = np.logical_and(bool_index, new)
         else:
             new = (df[key] == val).values
-- 
2.43.0


From 467354ca98bccf3a327d23119112603437215702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 052/134] fix: write non-contiguous data to DASDAE files

---
 dascore/io/dasdae/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 40c3396..7761b30 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -117,7 +117,9 @@ def _save_patch(patch, wave_group, h5, name):
     _save_coords(patch, patch_group, h5)
     # add data
     if patch.data.shape:
-        _create_or_squash_array(h5, patch_group, "data", patch.data)
+        # Note: pytables mangles some arrays which are not contiguous.
+        data = np.ascontiguousarray(patch.data)
+        _create_or_squash_array(h5, patch_group, "data", data)
 
 
 # --- Functions for reading
-- 
2.43.0


From ac114ea0d85969b5453e072d3461c49c259a99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:26 +0000
Subject: [PATCH 053/134] fix: DASDAE files keep units of coordinates with any
 name

---
 dascore/io/dasdae/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 7761b30..fad5b2a 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -155,21 +155,23 @@ def _get_coords(patch_group, dims, attrs2):
     coord_dict = {}  # just store coordinates here
     coord_dim_dict = {}  # stores {coord_name: ((dims, ...), coord)}
     for coord in [x for x in patch_group if x.name.startswith("_coord_")]:
-        name = coord.name.replace("_coord_", "")
+        name = coord.name.removeprefix("_coord_")
         array = _read_array(coord)
+        summary = attrs2.coords.get(name)
         coord = get_coord(
             data=array,
-            units=getattr(attrs2, f"{name}_units", None),
-            step=getattr(attrs2, f"{name}_step", None),
+            units=getattr(summary, "units", None),
+            step=getattr(summary, "step", None),
         )
         coord_dict[name] = coord
     # associates coordinates with dimensions
     c_dims = [x for x in patch_group._v_attrs._f_list() if x.startswith("_cdims")]
     for coord_name in c_dims:
-        name = coord_name.replace("_cdims_", "")
+        name = coord_name.removeprefix("_cdims_")
         value = patch_group._v_attrs[coord_name]
         assert name in coord_dict, "Should already have loaded coordinate array"
-        coord_dim_dict[name] = (tuple(value.split(",")), coord_dict[name])
+        coord_dims = tuple(x for x in value.split(",") if x)
+        coord_dim_dict[name] = (coord_dims, coord_dict[name])
         # add dimensions to coordinates that have them.
     cm = get_coord_manager(coord_dim_dict, dims=dims)
     return cm
-- 
2.43.0


From 0eba97738223b81bf998411533a9e193a4e37691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:26 +0000
Subject: [PATCH 054/134] fix: scan and lazily load DASDAE patches with
 sequences as attributes

---
 dascore/io/dasdae/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index fad5b2a..2f64687 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -130,7 +130,7 @@ def _get_attrs(patch_group):
     out = {}
     attrs = [x for x in patch_group._v_attrs._f_list() if x.startswith("_attrs_")]
     for attr_name in attrs:
-        key = attr_name.replace("_attrs_", "")
+        key = attr_name.removeprefix("_attrs_")
         val = patch_group._v_attrs[attr_name]
         # need to unpack one value arrays
         if isinstance(val, np.ndarray) and not val.shape:
@@ -195,14 +195,21 @@ def _matches_attr_filters(attrs, kwargs):
         is_null = pd.isnull(value)
         return bool(is_null) if not hasattr(is_null, "__len__") else False
 
+    attr_dict = attrs.model_dump(exclude={"coords"})
     query = {
         x: y
         for x, y in kwargs.items()
         if x not in _KWARG_NON_KEYS and not x.startswith("_") and not is_nullish(y)
     }
+    # Sequences equal to the attribute are not a query for its value.
+    query = {
+        x: y
+        for x, y in query.items()
+        if not (isinstance(y, list | tuple | dict) and y == attr_dict.get(x))
+    }
     if not query:
         return True
-    attr_df = pd.DataFrame([attrs.model_dump(exclude={"coords"})])
+    attr_df = pd.DataFrame([attr_dict])
     return bool(filter_df(attr_df, ignore_bad_kwargs=True, **query)[0])
 
 
@@ -258,8 +265,10 @@ def _get_patch_content_from_group(group):
     attrs = group._v_attrs
     out = {}
     for key in attrs._f_list():
+        if not key.startswith("_attrs_") and key != "_dims":
+            continue
         value = getattr(attrs, key)
-        new_key = key.replace("_attrs_", "")
+        new_key = key.removeprefix("_attrs_")
         # need to unpack 0 dim arrays.
         if isinstance(value, np.ndarray) and not value.shape:
             value = np.atleast_1d(value)[0]
-- 
2.43.0


From 460b9b3f9b0060e11772cee83b549aef7f06126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:26 +0000
Subject: [PATCH 055/134] fix: write patches with one channel to SEG-Y

---
 dascore/io/segy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/io/segy/utils.py b/dascore/io/segy/utils.py
index 8306694..2cb0ec9 100644
--- a/dascore/io/segy/utils.py
+++ b/dascore/io/segy/utils.py
@@ -238,7 +238,7 @@ def _write_segy(spool, resource, version, segyio):
     """
     patch = _get_segy_compatible_patch(spool)
     time, channel = patch.get_coord("time"), patch.get_coord("channel")
-    channel_step = channel.step
+    channel_step = 1 if channel.step is None else channel.step
 
     time_dict = _make_time_header_dict(time)
     bin_field = segyio.BinField
-- 
2.43.0


From 366327973fe93603ff1706526fc479ed4d8d7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:35 +0000
Subject: [PATCH 056/134] fix: query the index for patches overlapping a range
 without ORs

---
 dascore/utils/hdf5.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 5c6930f..4faaf25 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -139,12 +139,7 @@ def _get_kernel_query(starttime: int, endtime: int, buffer: int):
     """
     t1 = starttime - buffer
     t2 = endtime + buffer
-    con = (
-        f"(time_min>{t1:d} & time_min<{t2:d}) | "
-        f"((time_max>{t1:d} & time_max<{t2:d}) | "
-        f"(time_min<{t1:d} & time_max>{t2:d}))"
-    )
-    return con
+    return f"time_min<{t2:d} & time_max>{t1:d}"
 
 
 class HDFPatchIndexManager:
-- 
2.43.0


From db9a8c14f73aaad3a815570b6793a2cbe8e52549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:35 +0000
Subject: [PATCH 057/134] fix: find files with old modification times which
 were added since the last update

---
 dascore/utils/misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index aff0f47..17b9760 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -203,7 +203,10 @@ def _iter_filesystem(
     try:  # a single path was passed
         for entry in os.scandir(paths):
             if entry.is_file() and (ext is None or entry.name.endswith(ext)):
-                if timestamp is None or entry.stat().st_mtime >= timestamp:
+                # The change time accounts for files moved into the directory.
+                if timestamp is None or (
+                    max(entry.stat().st_mtime, entry.stat().st_ctime) >= timestamp
+                ):
                     if entry.name[0] != "." or not skip_hidden:
                         yield entry.path
             elif entry.is_dir() and not (skip_hidden and entry.name[0] == "."):
-- 
2.43.0


From 3e34234d0aca3bb7a03f5964f3037338e48255f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:35 +0000
Subject: [PATCH 058/134] fix: updating the index replaces the rows of modified
 files

---
 dascore/utils/hdf5.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 4faaf25..746a506 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -296,8 +296,21 @@ class HDFPatchIndexManager:
                     **self.hdf_kwargs,
                 )
             else:
-                df.index += nrows
-                store.append(self._index_node, df, append=True, **self.hdf_kwargs)
+                # New rows replace those of the same path.
+                old = store.get(self._index_node)
+                keep = ~old["path"].isin(df["path"])
+                if keep.all():
+                    df.index += nrows
+                    store.append(self._index_node, df, append=True, **self.hdf_kwargs)
+                else:
+                    df = pd.concat([old[keep], df[old.columns]], ignore_index=True)
+                    store.remove(self._index_node)
+                    store.append(
+                        self._index_node,
+                        df,
+                        min_itemsize=self._min_itemsize,
+                        **self.hdf_kwargs,
+                    )
             self._update_metadata(store, update_time)
 
     def _update_metadata(self, store, update_time):
-- 
2.43.0


From 65a1e15688d3b2f4f6d0bd3524f281217a173cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:35 +0000
Subject: [PATCH 059/134] fix: files whose time is not a date no longer prevent
 indexing the others

---
 dascore/io/indexer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index c4157dc..bb01685 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -8,9 +8,11 @@ import os
 import time
 import warnings
 from contextlib import suppress
+from datetime import datetime
 from functools import cache
 from pathlib import Path
 
+import numpy as np
 import pandas as pd
 import pooch
 from typing_extensions import Self
@@ -337,7 +339,10 @@ class DirectoryIndexer(AbstractIndexer):
             # guarantee all spools will be sorted but we can make sure most are
             # by sorting the contents before dumping to index.
             if "time_min" in df.columns:
-                df = df.sort_values("time_min").reset_index(drop=True)
+                # Other types (eg float) can neither be sorted nor indexed.
+                is_time = [isinstance(x, np.datetime64 | datetime) for x in df.time_min]
+                df = df[is_time].sort_values("time_min").reset_index(drop=True)
+        if not df.empty:
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
             self._index_table.write_update(df, update_time, base_path=self.path)
-- 
2.43.0


From 687dab3a386cb82504ad72c103900d5b7963a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 060/134] fix: indexing some paths does not hide other new
 files from later updates

---
 dascore/io/indexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index bb01685..9bfff76 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -325,6 +325,9 @@ class DirectoryIndexer(AbstractIndexer):
         """
         self._enforce_min_version()  # delete index if schema has changed
         update_time = time.time()
+        if paths is not None:
+            # Other files might still need to be indexed by later updates.
+            update_time = self._index_table.last_updated_timestamp or 1e-9
         timestamp = self._get_mtime(only_new=True)
         paths = self._get_paths(paths)
         df = dc.scan_to_df(
-- 
2.43.0


From 61d21a50502bb0a598df61f9174be6e156a313f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 061/134] fix: index files with long paths

---
 dascore/utils/hdf5.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 746a506..85ac817 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -299,7 +299,7 @@ class HDFPatchIndexManager:
                 # New rows replace those of the same path.
                 old = store.get(self._index_node)
                 keep = ~old["path"].isin(df["path"])
-                if keep.all():
+                if keep.all() and self._strings_fit(df):
                     df.index += nrows
                     store.append(self._index_node, df, append=True, **self.hdf_kwargs)
                 else:
@@ -313,6 +313,12 @@ class HDFPatchIndexManager:
                     )
             self._update_metadata(store, update_time)
 
+    def _strings_fit(self, df):
+        """Return True if no string is too long for a table written before."""
+        sub = df.select_dtypes(exclude=["number", "bool"])
+        limit = max(self._min_itemsize.values())
+        return all(len(str(x).encode()) <= limit for col in sub for x in sub[col])
+
     def _update_metadata(self, store, update_time):
         # update timestamp
         update_time = time.time() if update_time is None else update_time
-- 
2.43.0


From 97531a59cb83c8eb8a75ee2961920cec3d337209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 062/134] fix: interrupted updates leave the index usable

---
 dascore/io/indexer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 9bfff76..d777baf 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import abc
 import json
 import os
+import shutil
 import time
 import warnings
 from contextlib import suppress
@@ -298,6 +299,21 @@ class DirectoryIndexer(AbstractIndexer):
             os.remove(self.index_path)
             self.update()
 
+    def _write_update(self, df, update_time):
+        """Update a copy of the index, then swap, so an interruption can't break it."""
+        index_path = Path(self.index_path)
+        temp_path = index_path.with_name(f"{index_path.name}.{os.getpid()}.tmp")
+        try:
+            if index_path.exists():
+                shutil.copyfile(index_path, temp_path)
+            else:
+                index_path.parent.mkdir(exist_ok=True, parents=True)
+            index_table = HDFPatchIndexManager(temp_path, self._namespace)
+            index_table.write_update(df, update_time, base_path=self.path)
+            os.replace(temp_path, index_path)
+        finally:
+            temp_path.unlink(missing_ok=True)
+
     def get_index_metadata(self):
         """Return a dict of metadata about the index."""
         self.update()
@@ -348,7 +364,7 @@ class DirectoryIndexer(AbstractIndexer):
         if not df.empty:
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
-            self._index_table.write_update(df, update_time, base_path=self.path)
+            self._write_update(df, update_time)
             # clear cache out when new traces are added
             self.clear_cache()
         return self
-- 
2.43.0


From 7ca5aa133b7e42065c671e4bda804ad01ae05486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 063/134] fix: recreate corrupt index files

---
 dascore/io/indexer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index d777baf..dd37f7a 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -16,6 +16,7 @@ from pathlib import Path
 import numpy as np
 import pandas as pd
 import pooch
+import tables
 from typing_extensions import Self
 
 import dascore as dc
@@ -285,8 +286,21 @@ class DirectoryIndexer(AbstractIndexer):
             ]
         return paths
 
+    def _remove_corrupt_index(self):
+        """Remove the index if it isn't a readable hdf5 file."""
+        if not Path(self.index_path).exists():
+            return
+        try:
+            with tables.open_file(str(self.index_path), mode="r"):
+                return
+        except tables.HDF5ExtError:
+            msg = f"The index file {self.index_path} is corrupt. Recreating it now."
+            warnings.warn(msg, UserWarning)
+            os.remove(self.index_path)
+
     def _enforce_min_version(self):
         """Ensure the minimum version is met, else delete index file."""
+        self._remove_corrupt_index()
         try:
             self._index_table.validate_version()
         except InvalidIndexVersionError:
-- 
2.43.0


From 27deae0fbac9601e4bc342f9e7478400fa7d1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 064/134] fix: index and load files whose format has no version

---
 dascore/clients/dirspool.py | 4 +++-
 dascore/io/core.py          | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index b77bebf..7d5c6f9 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -118,7 +118,9 @@ class DirectorySpool(DataFrameSpool):
 
         This is significantly faster than iterating rows.
         """
-        df = df.copy(deep=False).replace("", None)
+        # Only object columns can hold None (str columns would use NaN).
+        str_cols = df.select_dtypes(include=["object", "string"]).columns
+        df = df.astype({x: object for x in str_cols}).replace("", None)
         # note: need to add extra / here since we no longer store it in db.
         df["path"] = (str(self.spool_path) + "/") + df["path"]
         return super()._df_to_dict_list(df)
diff --git a/dascore/io/core.py b/dascore/io/core.py
index c80b96d..39688c8 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -510,6 +510,7 @@ class FiberIO:
         for pa in spool:
             new = pa.attrs.update(
                 file_format=self.name,
+                file_version=self.version,
                 path=str(resource),
             )
             out.append(new)
-- 
2.43.0


From 47d09405e51844df3ae599d16cb7c50edcc86835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 065/134] fix: select from spools of directories without
 readable files

---
 dascore/io/indexer.py | 2 +-
 dascore/utils/hdf5.py | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index dd37f7a..1b3a7b4 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -182,7 +182,7 @@ class DirectoryIndexer(AbstractIndexer):
         # if the index still doesn't exist there are no readable files, return
         # empty df.
         if not self.index_path.exists():
-            return pd.DataFrame(columns=self._index_table.index_columns)
+            return self._index_table.get_empty_index()
         time_min, time_max = get_max_min_times(kwargs.pop("time", None))
         hdf5_kwargs, kwargs = self._separate_hdf5_kwargs(kwargs)
         buffer = to_timedelta64(buffer)
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 85ac817..9e26be7 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -240,6 +240,12 @@ class HDFPatchIndexManager:
         # assert not df.isnull().any().any(), "null values found in index"
         return df
 
+    def get_empty_index(self):
+        """Return an index without rows."""
+        df = pd.DataFrame(columns=self.index_columns)
+        # The encoded times are integers.
+        return self.decode_table(df.astype({x: np.int64 for x in self._column_decorders}))
+
     def get_index(self, time_min=None, time_max=None, **kwargs):
         """
         Read part of the hdf5 index from path meeting time min/max reqs.
-- 
2.43.0


From 4a936df17f7dc27a7c074971947e9b018d140dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 066/134] fix: index the sampling of files found along with
 ones whose time is not a date

---
 dascore/io/indexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 1b3a7b4..a169509 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -375,6 +375,12 @@ class DirectoryIndexer(AbstractIndexer):
                 # Other types (eg float) can neither be sorted nor indexed.
                 is_time = [isinstance(x, np.datetime64 | datetime) for x in df.time_min]
                 df = df[is_time].sort_values("time_min").reset_index(drop=True)
+                # The columns no longer have mixed types.
+                df = df.assign(
+                    time_min=df["time_min"].astype("datetime64[ns]"),
+                    time_max=df["time_max"].astype("datetime64[ns]"),
+                    time_step=df["time_step"].astype("timedelta64[ns]"),
+                )
         if not df.empty:
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
-- 
2.43.0


From d4fe126ca9b357fb4f40d300579067d50f407b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 067/134] fix: updates which failed to write don't replace the
 index

---
 dascore/io/indexer.py | 1 +
 dascore/utils/hdf5.py | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index a169509..7fb70e9 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -324,6 +324,7 @@ class DirectoryIndexer(AbstractIndexer):
                 index_path.parent.mkdir(exist_ok=True, parents=True)
             index_table = HDFPatchIndexManager(temp_path, self._namespace)
             index_table.write_update(df, update_time, base_path=self.path)
+            index_table.check_index()
             os.replace(temp_path, index_path)
         finally:
             temp_path.unlink(missing_ok=True)
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 9e26be7..0c7b34c 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -319,6 +319,12 @@ class HDFPatchIndexManager:
                     )
             self._update_metadata(store, update_time)
 
+    def check_index(self):
+        """Raise if the index can't be read, eg because the disk was full."""
+        with _HDF5Store(self.path, "r") as store:
+            for node in (self._index_node, self._time_node, self._meta_node):
+                store.get(node)
+
     def _strings_fit(self, df):
         """Return True if no string is too long for a table written before."""
         sub = df.select_dtypes(exclude=["number", "bool"])
-- 
2.43.0


From 3c492c26d3a1b432b55e73c544310e055f156d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 068/134] fix: update directories in which no file has a time

---
 dascore/io/indexer.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 7fb70e9..12f15a8 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -372,17 +372,18 @@ class DirectoryIndexer(AbstractIndexer):
             # Some users were surprised the spool wasn't sorted. We still cant
             # guarantee all spools will be sorted but we can make sure most are
             # by sorting the contents before dumping to index.
-            if "time_min" in df.columns:
-                # Other types (eg float) can neither be sorted nor indexed.
-                is_time = [isinstance(x, np.datetime64 | datetime) for x in df.time_min]
-                df = df[is_time].sort_values("time_min").reset_index(drop=True)
-                # The columns no longer have mixed types.
-                df = df.assign(
-                    time_min=df["time_min"].astype("datetime64[ns]"),
-                    time_max=df["time_max"].astype("datetime64[ns]"),
-                    time_step=df["time_step"].astype("timedelta64[ns]"),
-                )
+            # Missing times or other types (eg float) can't be sorted or indexed.
+            times = df["time_min"] if "time_min" in df.columns else [None] * len(df)
+            is_time = [isinstance(x, np.datetime64 | datetime) for x in times]
+            df = df[is_time & pd.notnull(np.asarray(times))]
         if not df.empty:
+            # Rows with other types are gone, so the columns can be converted.
+            df = df.assign(
+                time_min=df["time_min"].astype("datetime64[ns]"),
+                time_max=df["time_max"].astype("datetime64[ns]"),
+                time_step=df["time_step"].astype("timedelta64[ns]"),
+            )
+            df = df.sort_values("time_min").reset_index(drop=True)
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
             self._write_update(df, update_time)
-- 
2.43.0


From 84507c88695df336d7424f34063d790a6aa2657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 069/134] fix: convert pandas times and duration strings to ns
 precision

---
 dascore/utils/time.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 13abc71..10d4be9 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -144,7 +144,7 @@ def _datetime_to_datetime64(dt: datetime):
 
 @to_datetime64.register(pd.Timestamp)
 def _pandas_timestamp(datetime: pd.Timestamp):
-    return datetime.to_datetime64()
+    return datetime.to_datetime64().astype("datetime64[ns]")
 
 
 @singledispatch
@@ -247,8 +247,8 @@ def _string_array_to_timedelta64(arr: pd.arrays.StringArray):
 
 @to_timedelta64.register(pd.Timedelta)
 def _unpack_pandas_time_delta(time_delta: pd.Timedelta):
-    """Simply return the time delta."""
-    return time_delta.to_numpy()
+    """Simply return the time delta as ns precision."""
+    return time_delta.to_numpy().astype("timedelta64[ns]")
 
 
 @to_timedelta64.register(timedelta)
@@ -265,8 +265,13 @@ def _time_delta_from_str(time_delta_str: str):
         case [val, units]:
             if units[-1] == "s":
                 units = units[:-1]
-            new_unit = NUMPY_TIME_UNIT_MAPPING[units]
-            return np.timedelta64(int(val), new_unit)
+            try:
+                new_unit = NUMPY_TIME_UNIT_MAPPING[units]
+                out = np.timedelta64(int(val), new_unit)
+            except (KeyError, ValueError):
+                msg = f"Could not convert {time_delta_str} to timedelta64"
+                raise TimeError(msg)
+            return out.astype("timedelta64[ns]")
         case [val] if val.lower() == "nat" or val.lower() == "":
             return _NAT_TIMEDELTA64
         case _:
-- 
2.43.0


From 91daceaf86fa694317e12fc9a6cff8114d4f7dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 070/134] fix: convert times of any precision to ns

---
 dascore/utils/time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 10d4be9..09074ce 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -214,8 +214,8 @@ def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
             return array.astype("timedelta64[ns]")
     # Need to just get the ns form datetime64
     elif np.issubdtype(array.dtype, np.datetime64):
-        int_array = array.view(np.int64)
-        return np.array(int_array).astype("timedelta64[ns]")
+        int_array = array.astype("datetime64[ns]").astype(np.int64)
+        return int_array.astype("timedelta64[ns]")
 
     assert np.isreal(array[0])
     invalid = pd.isnull(array) | ~np.isfinite(array)
@@ -339,6 +339,8 @@ def _time_delta_to_number(time_delta: np.timedelta64):
 
 @to_int.register(pd.Series)
 def _pandas_timestamp_to_num(ser: pd.Series):
+    if isinstance(ser.dtype, pd.DatetimeTZDtype) or ser.dtype.kind in "mM":
+        return pd.Series(to_int(ser.values), index=ser.index, name=ser.name)
     return ser.astype(np.int64)
 
 
-- 
2.43.0


From a792c380195417ce91e20f7687d59ac3dcd32866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 071/134] fix: convert integers and durations to times without
 loss of precision

---
 dascore/utils/time.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 09074ce..5ab79ab 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -22,7 +22,9 @@ _NAT_TIMEDELTA64 = np.timedelta64("NaT", "ns")
 
 
 def _float_array_to_ns(array):
-    """Convert seconds as floats to signed integer nanoseconds."""
+    """Convert seconds as numbers to signed integer nanoseconds."""
+    if np.issubdtype(array.dtype, np.integer):
+        return array.astype(np.int64) * 1_000_000_000
     return np.rint(array * 1_000_000_000).astype(np.int64)
 
 
@@ -100,8 +102,14 @@ def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
             out = np.datetime64(array)
         else:
             out = array.astype("datetime64[ns]")
+    # durations are relative to 1970, don't lose precision in conversion to float.
+    elif np.issubdtype(array.dtype, np.timedelta64):
+        out = array.astype("timedelta64[ns]").astype("datetime64[ns]")
+    # integers can also be exactly converted
+    elif np.issubdtype(array.dtype, np.integer):
+        out = to_timedelta64(array).astype("datetime64[ns]")
     # dealing with numerical data
-    elif np.issubdtype(array.dtype, np.timedelta64) or np.isreal(array[0]):
+    elif np.isreal(array).all():
         with np.errstate(divide="ignore", invalid="ignore"):
             array = to_float(np.array(array))  # need to make copy to write
             nans = nans | ~np.isfinite(array)
@@ -217,7 +225,7 @@ def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
         int_array = array.astype("datetime64[ns]").astype(np.int64)
         return int_array.astype("timedelta64[ns]")
 
-    assert np.isreal(array[0])
+    assert np.isreal(array).all()
     invalid = pd.isnull(array) | ~np.isfinite(array)
     # Need to make copy to 1) not change original array and 2) handle
     # immutable arrays. See #575.
-- 
2.43.0


From d907bd518ec8cd1a27be8fb9c40198d7642cc0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 072/134] fix: convert arrays of any shape and objects as their
 elements

---
 dascore/utils/time.py | 46 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 5ab79ab..499ccbf 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -89,6 +89,8 @@ def _float_to_datetime(num: float | int) -> np.datetime64:
 def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
     """Convert an array of floating point timestamps to an array of np.datatime64."""
     array = np.asarray(array)
+    if not array.shape:  # dealing with degenerate (0-D) array
+        return to_datetime64(array[()])
     nans = pd.isnull(array)
     # dealing with objects
     if np.issubdtype(array.dtype, np.dtype(object)):
@@ -98,10 +100,7 @@ def _array_to_datetime64(array: np.ndarray) -> np.datetime64 | np.ndarray:
         array = array.astype("datetime64[ns]")
     # dealing with an array of datetime64 or empty array
     if np.issubdtype(array.dtype, np.datetime64) or len(array) == 0:
-        if not array.shape:  # dealing with degenerate (0-D( array
-            out = np.datetime64(array)
-        else:
-            out = array.astype("datetime64[ns]")
+        out = array.astype("datetime64[ns]")
     # durations are relative to 1970, don't lose precision in conversion to float.
     elif np.issubdtype(array.dtype, np.timedelta64):
         out = array.astype("timedelta64[ns]").astype("datetime64[ns]")
@@ -140,6 +139,12 @@ def _pass_datetime(datetime):
     return np.datetime64(datetime, "ns")
 
 
+@to_datetime64.register(timedelta)
+def _timedelta_to_datetime64(td):
+    """Durations are relative to 1970."""
+    return to_datetime64(to_timedelta64(td))
+
+
 @to_datetime64.register(datetime)
 def _datetime_to_datetime64(dt: datetime):
     """Convert python datetime to datetime64."""
@@ -212,14 +217,13 @@ def _pass_time_delta(time_delta):
 def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
     """Convert an array of floating point timestamps to an array of np.datatime64."""
     array = np.asarray(array)
-    # convert pure object arrays into float so sign casting works.
-    if np.issubdtype(array.dtype, np.dtype(object)):
-        array = array.astype(np.float64)
+    if not array.shape:  # unpack degenerate array
+        return to_timedelta64(array[()])
+    # objects and strings are converted one by one.
+    if array.dtype.kind in "OU" and len(array):
+        array = np.asarray([to_timedelta64(x) for x in array])
     if np.issubdtype(array.dtype, np.timedelta64) or len(array) == 0:
-        if not array.shape:  # unpack degenerate array
-            return np.timedelta64(array)
-        else:
-            return array.astype("timedelta64[ns]")
+        return array.astype("timedelta64[ns]")
     # Need to just get the ns form datetime64
     elif np.issubdtype(array.dtype, np.datetime64):
         int_array = array.astype("datetime64[ns]").astype(np.int64)
@@ -253,6 +257,13 @@ def _string_array_to_timedelta64(arr: pd.arrays.StringArray):
     return out.to_numpy(dtype="timedelta64[ns]")
 
 
+@to_timedelta64.register(np.datetime64)
+@to_timedelta64.register(datetime)
+def _datetime_to_timedelta64(dt):
+    """Return the duration from 1970, as for arrays."""
+    return to_datetime64(dt) - to_datetime64(0)
+
+
 @to_timedelta64.register(pd.Timedelta)
 def _unpack_pandas_time_delta(time_delta: pd.Timedelta):
     """Simply return the time delta as ns precision."""
@@ -304,7 +315,7 @@ def to_int(obj: timeable_types | np.ndarray) -> np.ndarray:
 @to_int.register(np.number)
 def _float_to_num(num: float | int) -> float | int:
     """Convert number to int."""
-    return int(num)
+    return np.nan if pd.isnull(num) else int(num)
 
 
 @to_int.register(np.ndarray)
@@ -313,8 +324,13 @@ def _float_to_num(num: float | int) -> float | int:
 def _array_to_int(array: np.ndarray) -> np.ndarray:
     """Convert an array of floating point timestamps to an array of np.datatime64."""
     array = np.asarray(array)
+    if not array.shape:  # unpack degenerate array
+        return to_int(array[()])
     if not len(array):
         return array.astype(np.int64)
+    # objects are converted one by one.
+    if np.issubdtype(array.dtype, np.dtype(object)):
+        return np.asarray([to_int(x) for x in array])
     # dealing with an array of datetime64 or empty array
     is_dt = np.issubdtype(array.dtype, np.datetime64)
     is_td = np.issubdtype(array.dtype, np.timedelta64)
@@ -341,6 +357,7 @@ def _return_number_null(null):
 
 
 @to_int.register(np.timedelta64)
+@to_int.register(timedelta)
 def _time_delta_to_number(time_delta: np.timedelta64):
     return to_int([to_timedelta64(time_delta)])[0]
 
@@ -368,8 +385,13 @@ def to_float(obj: timeable_types | np.ndarray) -> np.ndarray:
 def _array_to_float(array: np.ndarray) -> np.ndarray:
     """Convert an array of floating point timestamps to an array of np.datatime64."""
     array = np.asarray(array)
+    if not array.shape:  # unpack degenerate array
+        return to_float(array[()])
     if not len(array):
         return array.astype(np.float64)
+    # objects are converted one by one.
+    if np.issubdtype(array.dtype, np.dtype(object)):
+        array = np.asarray([to_float(x) for x in array])
     if np.issubdtype(array.dtype, np.datetime64):
         # convert to offset from 1970
         array = array - to_datetime64(0)
-- 
2.43.0


From c42844f33efdeecdc765aa48fd495755d00bcd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 073/134] fix: a limit of 0 s isn't an open limit

---
 dascore/utils/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 499ccbf..8e2486b 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -488,8 +488,8 @@ def get_max_min_times(kwarg_time=None):
     # get defaults if starttime or endtime is none
     time_min = None if pd.isnull(time_min) else time_min
     time_max = None if pd.isnull(time_max) else time_max
-    time_min = to_datetime64(time_min or SMALLDT64)
-    time_max = to_datetime64(time_max or LARGEDT64)
+    time_min = to_datetime64(SMALLDT64 if time_min is None else time_min)
+    time_max = to_datetime64(LARGEDT64 if time_max is None else time_max)
     if time_min is not None and time_max is not None:
         if time_min > time_max:
             msg = "time_min cannot be greater than time_max."
-- 
2.43.0


From d6134380a083881d559e546ac5bc817f019654f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:16 +0000
Subject: [PATCH 074/134] fix: convert nullable integers, and integers beyond
 representable times, to times

---
 dascore/utils/time.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 8e2486b..efacf8b 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -24,7 +24,13 @@ _NAT_TIMEDELTA64 = np.timedelta64("NaT", "ns")
 def _float_array_to_ns(array):
     """Convert seconds as numbers to signed integer nanoseconds."""
     if np.issubdtype(array.dtype, np.integer):
-        return array.astype(np.int64) * 1_000_000_000
+        info = np.iinfo(np.int64)
+        limit = info.max // 1_000_000_000
+        valid = (array <= limit) & (array >= -limit)
+        # The minimum is NaT, as for floats which are too large.
+        return np.where(valid, array, 0).astype(np.int64) * 1_000_000_000 + np.where(
+            valid, 0, info.min
+        )
     return np.rint(array * 1_000_000_000).astype(np.int64)
 
 
@@ -126,6 +132,12 @@ def _float_to_datetime(ser: pd.Series) -> pd.Series:
     return pd.Series(ar, index=ser.index)
 
 
+@to_datetime64.register(pd.api.extensions.ExtensionArray)
+def _extension_array_to_datetime64(arr):
+    """Convert other pandas arrays, eg those of nullable integers."""
+    return to_datetime64(np.asarray(arr, dtype=object))
+
+
 @to_datetime64.register(pd.arrays.StringArray)
 def _string_array_to_datetime64(arr: pd.arrays.StringArray):
     """Convert pandas StringArray to datetime64."""
@@ -250,6 +262,12 @@ def _series_to_timedelta64_series(ser: pd.Series) -> pd.Series:
     return pd.Series(out, index=ser.index)
 
 
+@to_timedelta64.register(pd.api.extensions.ExtensionArray)
+def _extension_array_to_timedelta64(arr):
+    """Convert other pandas arrays, eg those of nullable integers."""
+    return to_timedelta64(np.asarray(arr, dtype=object))
+
+
 @to_timedelta64.register(pd.arrays.StringArray)
 def _string_array_to_timedelta64(arr: pd.arrays.StringArray):
     """Convert pandas StringArray to timedelta64."""
-- 
2.43.0


From 36d7077e9dff34e64e537b644ab53f365ddf4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:28 +0000
Subject: [PATCH 075/134] fix: convert series of time objects to integers

---
 dascore/utils/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index efacf8b..4f85c91 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -382,7 +382,7 @@ def _time_delta_to_number(time_delta: np.timedelta64):
 
 @to_int.register(pd.Series)
 def _pandas_timestamp_to_num(ser: pd.Series):
-    if isinstance(ser.dtype, pd.DatetimeTZDtype) or ser.dtype.kind in "mM":
+    if isinstance(ser.dtype, pd.DatetimeTZDtype) or ser.dtype.kind in "mMO":
         return pd.Series(to_int(ser.values), index=ser.index, name=ser.name)
     return ser.astype(np.int64)
 
-- 
2.43.0


From 853036484c111e257bb7e2f536eaa6c41e112b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 076/134] fix: differentiate along reversed coordinates with
 higher orders

---
 dascore/transform/differentiate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/differentiate.py b/dascore/transform/differentiate.py
index e2fdc38..1fd2918 100644
--- a/dascore/transform/differentiate.py
+++ b/dascore/transform/differentiate.py
@@ -30,6 +30,9 @@ def _findiff_diff(data, axis, order, dx):
     """Use findiff to get differences along specified dimensions."""
     # If more than one axis, need to make tuples.
     findiff = optional_import("findiff")
+    # Findiff doesn't accept negative spacing, flip the sign of the output instead.
+    sign = np.prod([-1 if np.ndim(x) == 0 and x < 0 else 1 for x in dx])
+    dx = [x if np.ndim(x) else abs(x) for x in dx]
     if len(axis) > 1:
         orders = [1] * len(axis)  # always first order (first derivative).
         tuples = [tuple(x) for x in zip(axis, dx, orders)]
@@ -37,7 +40,7 @@ def _findiff_diff(data, axis, order, dx):
     else:
         func = findiff.FinDiff(axis[0], dx[0], 1, acc=order)
     out = func(data)
-    return out
+    return out if sign > 0 else -out
 
 
 def _get_diff(order, data, axes, dx_or_spacing):
-- 
2.43.0


From d42ceb61f401c63ce9013df71e40cff9b510c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 077/134] fix: use the exact spacing of uneven times for
 derivatives and integrals

---
 dascore/utils/patch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 2953ae8..b7c9005 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -48,7 +48,7 @@ from dascore.utils.misc import (
     warn_or_raise,
     yield_sub_sequences,
 )
-from dascore.utils.time import to_float
+from dascore.utils.time import is_datetime64, to_float
 
 attr_type = dict[str, Any] | str | Sequence[str] | None
 
@@ -930,6 +930,10 @@ def _get_dx_or_spacing_and_axes(
             val = coord.step
         else:
             val = coord.data
+            # Only the spacing is needed; the offset from the first value avoids
+            # round-off errors of large values (eg datetimes).
+            if len(val) and is_datetime64(val):
+                val = val - val[0]
         # need to convert val to float so datetimes work
         out.append(to_float(val))
         axes.append(patch.get_axis(dim_))
-- 
2.43.0


From 0d93d1d6b643d0d5c35f3ea8bc1674a84935c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 078/134] fix: integrate small integers, reversed coordinates,
 and keep coordinate units

---
 dascore/transform/integrate.py | 35 +++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/dascore/transform/integrate.py b/dascore/transform/integrate.py
index f3d5f9f..79d4057 100644
--- a/dascore/transform/integrate.py
+++ b/dascore/transform/integrate.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from dascore.compat import is_array
 from dascore.constants import PatchType
+from dascore.core.coords import get_coord
 from dascore.utils.misc import broadcast_for_index, iterate
 from dascore.utils.patch import (
     _get_data_units_from_dims,
@@ -23,27 +24,38 @@ def _quasi_mean(array):
     """Get a quasi mean value from an array. Works with datetimes."""
     dtype = array.dtype
     if np.issubdtype(dtype, np.datetime64) or np.issubdtype(dtype, np.timedelta64):
-        out = array.view("i8").mean().astype(array.dtype)
+        # Use offsets; a float can't hold the nanoseconds since 1970 exactly.
+        offsets = (array - array[0]).astype("timedelta64[ns]").astype(np.int64)
+        out = array[0] + np.timedelta64(round(offsets.mean()), "ns")
     else:
         out = np.mean(array)
     return np.asarray([out], dtype=array.dtype)
 
 
+def _get_inexact(array):
+    """Convert integer arrays, which can't hold an integral, to floats."""
+    if np.issubdtype(array.dtype, np.inexact):
+        return array
+    return array.astype(np.float64)
+
+
 def _get_definite_integral(patch, dxs_or_vals, dims, axes):
     """Get a definite integral along axes."""
 
     def _get_new_coords_and_array(patch, array, dims):
         """Get new coordinates with smashed (or not) coordinates."""
-        new_coords = {x: _quasi_mean(patch.get_coord(x).data) for x in dims}
-        # also add related coords indicating start/stop
+        new_coords = {}
         for name in dims:
-            coord = patch.get_coord(name).data
-            new_coords[f"pre_integrate_{name}_min"] = (name, np.asarray([coord.min()]))
-            new_coords[f"pre_integrate_{name}_max"] = (name, np.asarray([coord.max()]))
+            values, units = patch.get_array(name), patch.get_coord(name).units
+            new_coords[name] = get_coord(values=_quasi_mean(values), units=units)
+            # also add related coords indicating start/stop
+            for suffix, val in (("min", values.min()), ("max", values.max())):
+                coord = get_coord(values=np.asarray([val]), units=units)
+                new_coords[f"pre_integrate_{name}_{suffix}"] = (name, coord)
         cm = patch.coords.update(**new_coords)
         return array, cm
 
-    array = patch.data
+    array = _get_inexact(patch.data)
     ndims = len(patch.shape)
     for dxs_or_val, ax in zip(dxs_or_vals, axes):
         # Numpy 2/3 compat code
@@ -52,6 +64,9 @@ def _get_definite_integral(patch, dxs_or_vals, dims, axes):
             array = _TRAP_FUNC(array, x=dxs_or_val, axis=ax)[indexer]
         else:
             array = _TRAP_FUNC(array, dx=dxs_or_val, axis=ax)[indexer]
+        # The integral is from the smallest to the largest coordinate value.
+        if patch.get_coord(patch.dims[ax]).reverse_sorted:
+            array = -array
     array, coords = _get_new_coords_and_array(patch, array, dims)
     return array, coords
 
@@ -63,11 +78,9 @@ def _get_indefinite_integral(patch, dxs_or_vals, axes):
     We need to calculate the distance weighted average for the areas between
     samples for the integration dimension.
     """
-    array = patch.data
+    array = _get_inexact(patch.data)
     for dx_or_val, ax in zip(dxs_or_vals, axes):
-        # Integer data can't hold the integral, use float.
-        is_inexact = np.issubdtype(array.dtype, np.inexact)
-        out = np.zeros_like(array, dtype=array.dtype if is_inexact else np.float64)
+        out = np.zeros_like(array)
         ndim = len(out.shape)
         # if coordinate values are provided need to get diffs (along axis).
         if is_array(dx_or_val):
-- 
2.43.0


From ccfff59fc7da0f0d7d0c730fcb2a74de1c0b88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 079/134] fix: invert (short-time) Fourier transforms of
 reversed, single sample, or dimensionless data

---
 dascore/transform/fourier.py | 62 ++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 164d891..41fda5d 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -98,9 +98,10 @@ def _get_dft_new_coords(patch, dxs, dims, axes, real, original_cm=None):
         """Get coord for fft frequency bins."""
         new_dx = 1.0 / (x_len * dx)
         start = 0 if is_real else -(x_len // 2) * new_dx
-        stop = (x_len // 2 + 1) * new_dx if is_real else ((x_len - 1) // 2 + 1) * new_dx
+        # Use the length, rather than the stop value, to avoid round-off errors.
+        length = (x_len // 2 + 1) if is_real else x_len
         units = _get_dft_coord_units(units)
-        return get_coord(start=start, stop=stop, step=new_dx, units=units)
+        return get_coord(start=start, step=new_dx, shape=(length,), units=units)
 
     # first disassociate old coordinates. We do this rather than drop them
     # so the idft can find them and exactly restore old coords.
@@ -123,15 +124,19 @@ def _get_dft_new_coords(patch, dxs, dims, axes, real, original_cm=None):
     return cm
 
 
-def _get_dft_attrs(patch, dims, new_coords, pad=False, output="FFT"):
+def _get_dft_attrs(patch, dims, new_coords, pad=False, output="FFT", real=None):
     """Get new attributes for transformed patch."""
     new = dict(patch.attrs)
     new["dims"] = new_coords.dims
+    # If some dimensions are already transformed, keep what the first one stored.
+    new.setdefault("_pre_dft_data_type", new.get("data_type"))
+    new.setdefault("_pre_dft_data_units", new.get("data_units"))
     new["data_units"] = _get_dft_data_units(patch, dims)
-    new["_pre_dft_data_type"] = new.get("data_type")
     new["data_type"] = "fourier_transform"
     new["_dft_output"] = output
     new["_dft_padded"] = pad
+    if real is not None:
+        new["_dft_real"] = real
     return PatchAttrs(**new)
 
 
@@ -313,7 +318,7 @@ def dft(
     shift_slice = slice(None) if real is None else slice(None, -1)
     data = nft.fftshift(fft_data, axes=axes[shift_slice])
     # get attributes
-    attrs = _get_dft_attrs(patch, dims, new_coords, pad=pad, output=output)
+    attrs = _get_dft_attrs(patch, dims, new_coords, pad=pad, output=output, real=real)
     patch_out = patch.new(data=data, coords=new_coords, attrs=attrs)
 
     if output != "FFT":
@@ -336,7 +341,16 @@ def _get_idft_dims_steps_axis(patch, dim):
     dims = [x if x in current_dims else ft.rename_dims(x)[0] for x in iterate(dim)]
     patch.check_coords(dims=dims)
     coords = [patch.get_coord(x, require_evenly_sampled=True) for x in dims]
-    is_real = [1 if to_float(x.min()) == 0 else 0 for x in coords]
+    # The frequencies of complex transforms don't start at zero, unless there is
+    # only one, for which the name of the real dimension needs to be consulted.
+    real_dim = patch.attrs.get("_dft_real")
+    is_real = [
+        1
+        if to_float(x.values[0]) == 0
+        and (len(x) > 1 or real_dim == ft.rename_dims(name, forward=False)[0])
+        else 0
+        for name, x in zip(dims, coords)
+    ]
     real_sum = sum(is_real)
     assert real_sum <= 1, "only one real axis allowed."
     has_real = bool(real_sum)
@@ -351,7 +365,6 @@ def _get_idft_dims_steps_axis(patch, dim):
 def _get_idft_coords_and_sizes(patch, dims, new_dims, axes, real):
     """Get the new coords for the idft and expected sizes to pass to numpy."""
     shapes = patch.shape
-    padded = patch.attrs.get("_dft_padded", False)
     coord_map = patch.coords.disassociate_coord(*dims).get_coord_tuple_map()
     sizes = []
     padding = {}
@@ -368,9 +381,10 @@ def _get_idft_coords_and_sizes(patch, dims, new_dims, axes, real):
         if (len(potential_coord) == ax_len) or (real and old_dim == dims[-1]):
             sizes.append(len(potential_coord))
         coord_map[new_dim] = (new_dim, potential_coord)
-        if not padded:  # No padding, go to next dim.
+        _, unpadded = coord_map.pop(f"_{new_dim}_unpadded", (None, None))
+        if unpadded is None:  # No padding, go to next dim.
             continue
-        old_len = len(coord_map.pop(f"_{new_dim}_unpadded")[1])
+        old_len = len(unpadded)
         diff = old_len - len(coord_map[new_dim][1])
         if diff < 0:
             padding[new_dim] = (0, diff)
@@ -387,12 +401,26 @@ def _get_idft_attrs(patch, dims, new_coords):
     new = dict(patch.attrs)
     new.pop("coords", None)
     new["dims"] = new_coords.dims
-    new["data_units"] = _get_data_units_from_dims(patch, dims, mul)
+    units = dc.get_quantity(patch.attrs.data_units)
+    if units is not None:
+        # Dividing by the units of the restored coordinates, rather than
+        # multiplying by the frequency units, gets the original units back.
+        for dim in FourierTransformatter().rename_dims(dims, forward=False):
+            coord_units = dc.get_quantity(new_coords.coord_map[dim].units)
+            units = units if coord_units is None else units / coord_units
+    new["data_units"] = units
+    # Nothing below applies if some dimensions are still transformed.
+    if any(x.startswith("ft_") for x in new_coords.dims):
+        return PatchAttrs(**new)
     # Restore the pre-dft datatype.
     if "_pre_dft_data_type" in new:
         new["data_type"] = new.pop("_pre_dft_data_type", None)
+    # The units are lost if those of the transformed data were dimensionless.
+    pre_units = new.pop("_pre_dft_data_units", None)
+    new["data_units"] = pre_units if units is None else units
     new.pop("_dft_output", None)
     new.pop("_dft_padded", None)
+    new.pop("_dft_real", None)
     return PatchAttrs(**new)
 
 
@@ -478,7 +506,9 @@ def _get_stft_coords(patch, dim, axis, coord, stft, window):
         return tuple(new_dims)
 
     # Get new coordinate. Just called time here because that is most common.
-    time = stft.t(len(coord))
+    # The windows, and frequencies, follow the direction of the coordinate.
+    direction = np.sign(dc.to_float(coord.step))
+    time = stft.t(len(coord)) * direction
     if is_datetime64(coord.dtype) or is_timedelta64(coord.dtype):
         time = dc.to_timedelta64(time)
     # Get new dimensions
@@ -489,8 +519,8 @@ def _get_stft_coords(patch, dim, axis, coord, stft, window):
     new_units = invert_quantity(coord.units)
     coord_map.update(
         {
-            dim: get_coord(values=time + coord.min(), units=coord.units),
-            new_dims[axis]: get_coord(values=stft.f, units=new_units),
+            dim: get_coord(values=time + coord.values[0], units=coord.units),
+            new_dims[axis]: get_coord(values=stft.f * direction, units=new_units),
             # Add window array for inverse stft.
             "_stft_window": (None, window),
             "_stft_old_coord": (None, patch.get_coord(dim)),
@@ -609,6 +639,7 @@ def stft(
         "_stft_mfft": window_samples,
         "_stft_performed": True,
         "_pre_stft_data_type": patch.attrs.get("data_type"),
+        "_pre_stft_data_units": patch.attrs.get("data_units"),
         "data_units": _get_data_units_from_dims(patch, dim, mul),
     }
     attrs = patch.attrs.drop("coords").update(**new_attrs)
@@ -709,6 +740,9 @@ def istft(patch) -> PatchType:
     if "_pre_stft_data_type" in patch_attrs:
         new_attrs["data_type"] = new_attrs.pop("_pre_stft_data_type")
     dim = patch.dims[time_axis]
-    new_attrs["data_units"] = _get_data_units_from_dims(patch, dim, truediv)
+    units = _get_data_units_from_dims(patch, dim, truediv)
+    # The units are lost if those of the transformed data were dimensionless.
+    pre_units = new_attrs.pop("_pre_stft_data_units", None)
+    new_attrs["data_units"] = pre_units if units is None else units
     attrs = dc.PatchAttrs(**new_attrs).drop("coords")
     return patch.new(data=new_data, coords=cm, attrs=attrs)
-- 
2.43.0


From 03dc144da371e3f4b3de6f8ca0799d62c4e7fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:48 +0000
Subject: [PATCH 080/134] fix: invert short-time Fourier transforms of patches
 with other coordinates

---
 dascore/transform/fourier.py | 14 ++++++++++----
 dascore/utils/patch.py       |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 41fda5d..cabac52 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -70,6 +70,10 @@ def _get_dft_coord_unit_product(patch, dims, transformed=False):
 def _get_dft_data_units(patch, dims, output="FFT"):
     """Get data units for DFT outputs."""
     data_units = dc.get_quantity(patch.attrs.data_units)
+    # The units of the transformed data are also None if they are dimensionless.
+    pre_units = patch.attrs.get("_pre_dft_data_units")
+    if data_units is None and output != "FFT" and pre_units is not None:
+        data_units = dc.get_quantity("1")
     if data_units is None:
         return None
     domain_units = _get_dft_coord_unit_product(patch, dims)
@@ -667,11 +671,13 @@ def _get_istft_coord(coords, frequency_axis, time_axis):
     """
     dims = coords.dims
     # Create new time coordinate.
-    coord_map = dict(coords.coord_map)
+    coord_map = coords.get_coord_tuple_map()
     coord_map.pop("_stft_window")
-    time = coord_map.pop("_stft_old_coord")
-    coord_map.pop(coords.dims[frequency_axis])
-    coord_map[dims[time_axis]] = time
+    _, time = coord_map.pop("_stft_old_coord")
+    # Coordinates associated with the windows or frequencies can't be kept.
+    lost = {dims[frequency_axis], dims[time_axis]}
+    coord_map = {i: v for i, v in coord_map.items() if not lost & set(v[0] or ())}
+    coord_map[dims[time_axis]] = (dims[time_axis], time)
     # Get new dimensions
     new_dims = list(dims)
     new_dims[frequency_axis] = dims[time_axis]
diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index b7c9005..8124a04 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -48,7 +48,7 @@ from dascore.utils.misc import (
     warn_or_raise,
     yield_sub_sequences,
 )
-from dascore.utils.time import is_datetime64, to_float
+from dascore.utils.time import is_datetime64, is_timedelta64, to_float
 
 attr_type = dict[str, Any] | str | Sequence[str] | None
 
@@ -932,7 +932,7 @@ def _get_dx_or_spacing_and_axes(
             val = coord.data
             # Only the spacing is needed; the offset from the first value avoids
             # round-off errors of large values (eg datetimes).
-            if len(val) and is_datetime64(val):
+            if len(val) and (is_datetime64(val) or is_timedelta64(val)):
                 val = val - val[0]
         # need to convert val to float so datetimes work
         out.append(to_float(val))
-- 
2.43.0


From 8d2ce16369f34649a2ab2803b59000623e6735a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:12 +0000
Subject: [PATCH 081/134] fix: roll patches of more than two dimensions with
 short steps

---
 dascore/proc/rolling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/rolling.py b/dascore/proc/rolling.py
index 30b9af6..9b2a0b1 100644
--- a/dascore/proc/rolling.py
+++ b/dascore/proc/rolling.py
@@ -394,7 +394,8 @@ def rolling(
         engines = {"numpy": _NumpyPatchRoller, "pandas": _PandasPatchRoller}
         if cls := engines.get(engine):
             return cls
-        if step < 10 and len(patch.squeeze().dims) < 2:
+        # Pandas can only handle up to two dimensions.
+        if step < 10 and patch.ndim < 3 and sum(x > 1 for x in patch.shape) < 2:
             return _PandasPatchRoller
         return _NumpyPatchRoller
 
-- 
2.43.0


From 03f08fbda1900d2486eaf2ae563766dd42dbd729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:12 +0000
Subject: [PATCH 082/134] fix: filter patches along reversed dimensions

---
 dascore/utils/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 8124a04..6fc8dbf 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -706,7 +706,8 @@ def get_dim_sampling_rate(patch: PatchType, dim: str) -> float:
             f"Patch.extrapolate. "
         )
         raise CoordDataError(msg)
-    return 1.0 / d_dim
+    # Coordinates can be in descending order.
+    return 1.0 / abs(d_dim)
 
 
 def get_patch_window_size(
-- 
2.43.0


From c998daa08606d3ecf97b82ce0277254f44fe90eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:12 +0000
Subject: [PATCH 083/134] fix: wiener filter integers without overflow

---
 dascore/proc/wiener.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/wiener.py b/dascore/proc/wiener.py
index d08611e..113ef7a 100644
--- a/dascore/proc/wiener.py
+++ b/dascore/proc/wiener.py
@@ -4,6 +4,8 @@ Wiener filtering functionality for noise reduction.
 
 from __future__ import annotations
 
+import numpy as np
+
 from dascore.constants import PatchType
 from dascore.exceptions import ParameterError
 from dascore.utils.imports import lazy_import
@@ -79,5 +81,8 @@ def wiener_filter(
         raise ParameterError(msg)
 
     size = get_patch_window_size(patch, kwargs, samples, min_samples=1)
-    filtered_data = wiener(patch.data, mysize=size, noise=noise)
+    # The local variance, calculated with the type of the data, overflows for ints.
+    data = patch.data
+    data = data.astype(np.float64) if data.dtype.kind in "iub" else data
+    filtered_data = wiener(data, mysize=size, noise=noise)
     return patch.update(data=filtered_data)
-- 
2.43.0


From c3a10f5de99ff6c8373a7a4ebcd1916844dce4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:12 +0000
Subject: [PATCH 084/134] fix: whiten keeps all coordinates and accepts arrays
 of frequencies

---
 dascore/proc/whiten.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/whiten.py b/dascore/proc/whiten.py
index 34ca43c..2bb9f22 100644
--- a/dascore/proc/whiten.py
+++ b/dascore/proc/whiten.py
@@ -154,10 +154,11 @@ def whiten(
     # Init new output from new amplitudes and old phases.
     out = fft_patch.new(data=amp * np.exp(1j * np.angle(fft_patch.data)))
     # Apply band-limited taper to remove some frequencies.
-    if freq_range:
+    if freq_range is not None:
         _check_freq_range(fft_coord, freq_range)
         out = out.taper_range.func(out, **{fft_dim: freq_range})
     # Convert back to time domain if input was in time-domain.
     if not input_patch_fft:
-        out = out.idft()
+        # Only the data change, the transforms may have dropped coordinates.
+        out = patch.new(data=out.idft.func(out).data)
     return out
-- 
2.43.0


From 7f8c2f4c523593165ad6beccf0a188b0ba439590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:12 +0000
Subject: [PATCH 085/134] fix: sobel filter integers without overflow

---
 dascore/proc/filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index fd732e5..13f2f12 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -189,7 +189,10 @@ def sobel_filter(
     """
     dim, mode, cval = _check_sobel_args(dim, mode, cval)
     axis = patch.get_axis(dim)
-    out = ndimage.sobel(patch.data, axis=axis, mode=mode, cval=cval)
+    # Integers can't hold the (possibly large or negative) gradient.
+    data = patch.data
+    data = data.astype(np.float64) if data.dtype.kind in "iub" else data
+    out = ndimage.sobel(data, axis=axis, mode=mode, cval=cval)
     return dc.Patch.from_parts(out, patch.coords, patch.attrs)
 
 
-- 
2.43.0


From 60f4930a431e78a297af40b75c4d80736c9dd573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:12 +0000
Subject: [PATCH 086/134] fix: slope_filter keeps coordinates and complex data
 and honours units

---
 dascore/proc/filter.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index 13f2f12..2a7a731 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -550,6 +550,14 @@ def slope_filter(
     The [FK recipe](`docs/recipes/fk.qmd`) provides addtional examples.
     """
 
+    def _get_filter_array(filt):
+        """Convert the filter to an array, or quantity array."""
+        if isinstance(filt, dc.units.Quantity):
+            return filt
+        if any(isinstance(x, dc.units.Quantity) for x in filt):
+            return quant_sequence_to_quant_array(filt)
+        return np.array(filt)
+
     def _check_inputs(patch, filt, dims):
         """Ensure inputs are valid."""
         sorted_filt = np.all(filt[:-1] <= filt[1:])
@@ -576,13 +584,18 @@ def slope_filter(
         fac = fac if invert else 1.0 - fac
         return fac
 
+    def _get_frequencies(dft_patch, dim):
+        """Get the frequencies; rounding errors of the zero frequency matter."""
+        coord = dft_patch.get_coord(dim, require_evenly_sampled=True)
+        return np.where(np.abs(coord.values) < abs(coord.step) / 1e6, 0, coord.values)
+
     def _get_slope_array(dft_patch, directional, freq_dims):
         """Get an array which specifies slope."""
         dim1, dim2 = freq_dims[-1], freq_dims[-2]
         dims = dft_patch.dims
         ndims = dft_patch.ndim
-        coord1 = dft_patch.get_array(dim1)
-        coord2 = dft_patch.get_array(dim2) + sys.float_info.epsilon
+        coord1 = _get_frequencies(dft_patch, dim1)
+        coord2 = _get_frequencies(dft_patch, dim2) + sys.float_info.epsilon
         # Need to add appropriate blank dims to keep overall shape of patch.
         ax1, ax2 = dims.index(dim1), dims.index(dim2)
         shape_1 = broadcast_for_index(ndims, ax1, value=slice(None), fill=None)
@@ -596,13 +609,6 @@ def slope_filter(
     def _maybe_transform_units(filt, dft_patch, freq_dims):
         """Handle units on filter."""
         # Hand the units/partial units in sequence.
-        units = getattr(filt, "units", None)
-        try:
-            filt = np.array(filt)
-        except ValueError:
-            filt = quant_sequence_to_quant_array(filt)
-        if units:
-            filt = filt * dc.get_quantity(units)
         if not isinstance(filt, dc.units.Quantity):
             return filt
         array, units = filt.magnitude, filt.units
@@ -616,11 +622,16 @@ def slope_filter(
             raise UnitError(msg)
         new_units = coord_unit_1 / coord_unit_2
         # Determine if we need to flip units.
-        if new_units.dimensionality == (1 / units).dimensionality:
+        inverse = new_units.dimensionality == (1 / units).dimensionality
+        if inverse and new_units.dimensionality != units.dimensionality:
             array, units = np.sort(1 / array), invert_quantity(units)
+        # Dimensionless units can still have a factor (e.g., m/ft).
+        if new_units.dimensionless and units.dimensionless:
+            return (array * units).m_as(new_units.units)
         out = convert_units(array, new_units, units)
         return out
 
+    filt = _get_filter_array(filt)
     _check_inputs(patch, filt, dims)
     freq_dims = tuple(f"ft_{x}" for x in dims)
     dft_patch = patch.dft.func(patch, dims)
@@ -639,5 +650,7 @@ def slope_filter(
     new_data = dft_patch.data * mask
     out = dft_patch.update(data=new_data)
     if transformed:
-        out = out.idft().real()
+        data = out.idft.func(out).data
+        # Only the data change, the transforms may have dropped coordinates.
+        out = patch.new(data=data.real if np.isrealobj(patch.data) else data)
     return out
-- 
2.43.0


From 12a480eb24e32be4d5c1dee79298c4661181f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:35 +0000
Subject: [PATCH 087/134] fix: rolling windows of both engines agree when
 centered with a step, for std, and complex data

---
 dascore/proc/rolling.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/dascore/proc/rolling.py b/dascore/proc/rolling.py
index 9b2a0b1..2340bcb 100644
--- a/dascore/proc/rolling.py
+++ b/dascore/proc/rolling.py
@@ -98,36 +98,40 @@ class _PatchRollerInfo:
 class _NumpyPatchRoller(_PatchRollerInfo):
     """A class to apply roller operations to patches."""
 
+    def _get_offset(self):
+        """Get the number of samples each window extends beyond its label."""
+        return (self.window - 1) // 2 if self.center else 0
+
+    def _get_first_label(self):
+        """Get the output index of the first label whose window is complete."""
+        return -((self._get_offset() - (self.window - 1)) // self.step)
+
     def get_start_index(self):
         """
-        Get the start index to account for non-zero step size.
+        Get the start index (of the first complete window) for a non-zero step size.
 
         This only applies for numpy engine.
         """
-        wsize = self.window - 1
-        out = np.ceil(wsize / self.step) * self.step - wsize
-        return int(out)
+        last = self._get_first_label() * self.step + self._get_offset()
+        return last - (self.window - 1)
 
     def _pad_roll_array(self, data):
         """
         Pad the reduced array with NaNs and align it to the output coordinate.
 
         The NaNs go at the start of the axis, except when centering, which
-        moves `num_nans // 2` of them to the end. This is done with a single
+        puts about half of them at the end. This is done with a single
         allocation rather than a pad followed by a roll.
         """
-        num_nans = 1 + (self.window - 2) // self.step
-        if not num_nans:  # window of one sample; nothing to pad.
-            return data
         shape = list(data.shape)
-        shape[self.axis] += num_nans
+        shape[self.axis] = -(-self.patch.shape[self.axis] // self.step)
+        if tuple(shape) == data.shape:  # window of one sample; nothing to pad.
+            return data
         out = np.full(shape, np.nan, dtype=data.dtype)
-        start = num_nans - num_nans // 2 if self.center else num_nans
+        start = self._get_first_label()
         slicer = [slice(None, None)] * len(shape)
         slicer[self.axis] = slice(start, start + data.shape[self.axis])
         out[tuple(slicer)] = data
-        if self.step == 1:
-            assert out.shape == self.patch.data.shape
         return out
 
     @compose_docstring(apply_description=rolling_apply_description)
@@ -155,7 +159,9 @@ class _NumpyPatchRoller(_PatchRollerInfo):
         # apply function, then pad with NaNs and roll
         trimmed_slide_view = slide_view[tuple(step_slice)]
         raw = function(trimmed_slide_view, *args, axis=-1, **kwargs)
-        out = self._pad_roll_array(np.asarray(raw, dtype=np.float64))
+        raw = np.asarray(raw)
+        dtype = np.complex128 if np.iscomplexobj(raw) else np.float64
+        out = self._pad_roll_array(raw.astype(dtype, copy=False))
         return self._new_patch(out, function)
 
     def mean(self):
@@ -211,7 +217,7 @@ class _PandasPatchRoller(_PatchRollerInfo):
         data = df.values if not self.axis else df.T.values
         # get rid of extra dims if original data doesn't have them.
         if len(data.shape) != len(self.patch.data.shape):
-            data = np.squeeze(data)
+            data = data[..., 0]
         return self._new_patch(data, func_or_str)
 
     def _call_rolling_func(self, name, *args, **kwargs):
@@ -246,7 +252,8 @@ class _PandasPatchRoller(_PatchRollerInfo):
 
     def std(self):
         """Apply standard deviation to moving window."""
-        return self._call_rolling_func(name="std")
+        # The numpy engine, and patch.std, don't use a bias correction.
+        return self._call_rolling_func(name="std", ddof=0)
 
     def sum(self):
         """Apply sum to moving window."""
-- 
2.43.0


From ad2825ebeb98d924349ebbec31ea2112fc7a4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:26 +0000
Subject: [PATCH 088/134] fix: resample keeps units, exact sampling intervals,
 and reversed coordinates

---
 dascore/proc/resample.py | 74 ++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index 12ee762..45a87af 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -9,12 +9,11 @@ import numpy as np
 import dascore as dc
 import dascore.compat as compat
 from dascore.constants import PatchType
-from dascore.exceptions import FilterValueError
+from dascore.exceptions import FilterValueError, ParameterError
 from dascore.units import get_filter_units
 from dascore.utils.imports import lazy_import
 from dascore.utils.patch import (
     get_dim_axis_value,
-    get_start_stop_step,
     patch_function,
 )
 from dascore.utils.time import to_int, to_timedelta64
@@ -160,6 +159,36 @@ def interpolate(patch: PatchType, kind: str | int = "linear", **kwargs) -> Patch
     return patch.new(data=out, coords=cm_new)
 
 
+def _get_new_step(coord, value):
+    """Get the new sampling interval in the units, and direction, of the coord."""
+    step, units = coord.step, coord.units
+    is_time = isinstance(step, np.timedelta64)
+    # The sampling intervals of times are always in seconds.
+    coord_units = dc.get_quantity("s" if is_time and units else units)
+    # inverse coord unit to trick filter units into giving correct units.
+    if coord_units is not None:
+        coord_units = 1 / coord_units
+    new_step, _ = get_filter_units(value, value, to_unit=coord_units)
+    # nasty hack so that ints/floats get converted to seconds.
+    if is_time:
+        new_step = to_timedelta64(new_step)
+    return -new_step if coord.reverse_sorted and new_step / step < 0 else new_step
+
+
+def _get_resampled_coord(coord, length, new_step, factor):
+    """Get the coordinate of the given length, or one whose step changed by a factor."""
+    start, units = coord[0], coord.units
+    if new_step is not None:
+        return dc.get_coord(start=start, step=new_step, shape=(length,), units=units)
+    step = coord.step
+    if isinstance(step, np.timedelta64):
+        offset = np.round(np.arange(length) * (to_int(step) * factor))
+        values = start + offset.astype("timedelta64[ns]")
+    else:
+        values = start + np.arange(length) * (step * factor)
+    return dc.get_coord(data=values, units=units)
+
+
 @patch_function()
 def resample(
     patch: PatchType,
@@ -225,30 +254,25 @@ def resample(
     """
     dim, axis, value = get_dim_axis_value(patch, kwargs=kwargs)[0]
     coord = patch.get_coord(dim, require_sorted=True, require_evenly_sampled=True)
-    new_step = None
+    old_len, step = len(coord), coord.step
     if not samples:
-        step = coord.step
-        coord_units = dc.get_quantity(coord.units)
-        # inverse coord unit to trick filter units into giving correct units.
-        if coord_units is not None:
-            coord_units = 1 / coord_units
-        new_step, _ = get_filter_units(value, value, to_unit=coord_units)
-        # nasty hack so that ints/floats get converted to seconds.
-        if isinstance(step, np.timedelta64):
-            new_step = to_timedelta64(new_step)
-        current_sig_len = patch.data.shape[axis]
-        new_len = current_sig_len * (step / new_step)
+        new_step = _get_new_step(coord, value)
+        new_len = old_len * (step / new_step)
     else:
-        new_len = value
+        new_step, new_len = None, value
+    num = int(np.round(new_len))
+    if num < 1:
+        msg = f"resample along {dim} to {value} results in less than one sample."
+        raise ParameterError(msg)
     # do the resampling
-    data, new_coord = compat.resample(
-        patch.data, int(np.round(new_len)), t=coord, axis=axis, window=window
-    )
-    cm = patch.coords.update(**{dim: new_coord})
-    out = patch.new(data=data, coords=cm)
+    data = compat.resample(patch.data, num, axis=axis, window=window)
     # Interpolate if new sampling rate is not very close to desired sampling rate.
-    if not samples and not np.isclose(new_len, np.round(new_len)):
-        start, stop, step = get_start_stop_step(out, dim)
-        new_coord = np.arange(start, stop, new_step)
-        out = interpolate(out, kind=interp_kind, **{dim: new_coord})
-    return out
+    if not samples and abs(new_len - num) > 1e-5:
+        # The positions are relative to the number of resampled samples.
+        ratio = num / new_len
+        new_positions = np.arange(int(np.ceil((num - 1) / ratio))) * ratio
+        func = compat.interp1d(np.arange(num), data, axis=axis, kind=interp_kind)
+        data = func(new_positions)
+    new_coord = _get_resampled_coord(coord, data.shape[axis], new_step, old_len / num)
+    cm = patch.coords.update(**{dim: new_coord})
+    return patch.new(data=data, coords=cm)
-- 
2.43.0


From 20fdd90a637b3bc17c4b489ba2218f810e7b03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:58 +0000
Subject: [PATCH 089/134] fix: dropna keeps coordinates associated with the
 dimension

---
 dascore/proc/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 0e940da..27b92cb 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -505,8 +505,8 @@ def dropna(
     slices = [slice(None)] * len(patch.dims)
     slices[axis] = to_keep
     new_data = patch.data[tuple(slices)]
-    coord = patch.get_coord(dim)
-    cm = patch.coords.update(**{dim: coord[to_keep]})
+    # Also keeps the corresponding values of coordinates associated with the dim.
+    cm, _ = patch.coords.order(samples=True, **{dim: np.flatnonzero(to_keep)})
     attrs = patch.attrs.update(coords={})
     return patch.new(data=new_data, coords=cm, attrs=attrs)
 
-- 
2.43.0


From 3980525eb6095a70f920d9d1382778d54cd6c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:58 +0000
Subject: [PATCH 090/134] fix: mutes honour units, fine times, and descending
 coordinates

---
 dascore/proc/mute.py | 54 ++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/dascore/proc/mute.py b/dascore/proc/mute.py
index e0c89fc..a26e2f8 100644
--- a/dascore/proc/mute.py
+++ b/dascore/proc/mute.py
@@ -14,12 +14,14 @@ from scipy.ndimage import gaussian_filter
 import dascore as dc
 from dascore.constants import PatchType
 from dascore.exceptions import ParameterError
+from dascore.units import Quantity, quant_sequence_to_quant_array
 from dascore.utils.docs import compose_docstring
 from dascore.utils.misc import (
     get_2d_line_intersection,
 )
 from dascore.utils.models import DascoreBaseModel
 from dascore.utils.patch import get_dim_axis_value, patch_function
+from dascore.utils.time import dtype_time_like, is_timedelta64
 
 _smooth_param = """
 smooth
@@ -40,6 +42,20 @@ smooth
 _smooth_type = None | float | int | tuple[float | int, ...] | dict[str, float | int]
 
 
+def _is_sequence(value):
+    """Return True if value has more than one element (scalar quantities don't)."""
+    value = getattr(value, "magnitude", value)
+    return isinstance(value, Sized) and getattr(value, "ndim", 1) != 0
+
+
+def _offset_origin(coord, offset):
+    """Get the value a (positive) distance, in the coord's direction, from its start."""
+    offset = -offset if coord.reverse_sorted else offset
+    if dtype_time_like(coord.dtype):
+        offset = dc.to_timedelta64(offset)
+    return coord[0] + offset
+
+
 class _MuteGeometry(ABC, DascoreBaseModel):
     """
     Parent class for Mute Geometry.
@@ -97,7 +113,8 @@ class _MuteGeometry(ABC, DascoreBaseModel):
                 coord = patch.get_coord(dim)
                 if val is None:
                     out.append(0)
-                elif isinstance(val, int | np.integer):
+                # Note: timedeltas are also numpy integers.
+                elif isinstance(val, int | np.integer) and not is_timedelta64(val):
                     out.append(val)
                 elif isinstance(val, float | np.floating):
                     if not 0 <= val <= 1:
@@ -127,11 +144,12 @@ class _MuteGeometry1D(_MuteGeometry):
     @classmethod
     def from_params(cls, vals, dims, axes, patch, relative):
         """Initialize Mute Geometry from input parameters."""
-        vals = np.array(vals)
-        if vals.size != 2:  # Handle single dimension Mute.
+        pair = vals[0]
+        if not _is_sequence(pair) or len(pair) != 2 or any(map(_is_sequence, pair)):
             msg = "Mute requires two boundaries when using a single dimension."
             raise ParameterError(msg)
-        lims = (vals[0][0], vals[0][1])
+        # Note: the values can be quantities, or None, so they aren't an array.
+        lims = (pair[0], pair[1])
         return cls(dims=dims, axes=axes, relative=relative, lims=lims)
 
     def _apply_mask(self, array: NDArray, patch: dc.Patch, fill_value) -> NDArray:
@@ -239,7 +257,9 @@ class _MuteGeometry2D(_MuteGeometry):
 
         def _get_coord_float_values(coord, vals, relative):
             """Get coordinate values in float relative to coord minimum."""
-            compat = coord._get_compatible_value(np.array(vals), relative=relative)
+            has_units = any(isinstance(x, Quantity) for x in vals)
+            array = quant_sequence_to_quant_array(vals) if has_units else np.array(vals)
+            compat = coord._get_compatible_value(array, relative=relative)
             return dc.to_float(compat - coord.min())
 
         # Output is dim by column and point by row.
@@ -250,7 +270,7 @@ class _MuteGeometry2D(_MuteGeometry):
         for ind, (coord, row) in enumerate(zip(coords, value_list, strict=True)):
             # We iterate each pair because it might be an implicit value.
             for pair_ind, pair in enumerate(row):
-                is_sized = isinstance(pair, Sized)
+                is_sized = _is_sequence(pair)
                 # The range is clearly defined.
                 if is_sized:
                     array_inds = (slice(pair_ind * 2, pair_ind * 2 + 2), ind)
@@ -307,11 +327,11 @@ class _MuteGeometry2D(_MuteGeometry):
             ax = patch.get_axis(dim)
             coord = patch.get_coord(dim)
             # Get the coordinate values normalized to coord range.
-            coord_vals = dc.to_float(coord.values)
+            # Times are only converted to floats once they are offsets.
+            coord_vals = dc.to_float(coord.values - coord.min())
             coord_range = dc.to_float(coord.coord_range())
             # Since the points have already been converted to relative,
             # even if they were absolute, we must do the same here.
-            coord_vals -= dc.to_float(coord.min())
             # Iterate over each origin.
             for onum, origin in enumerate(self.origins):
                 # We need to transform coordinate values to values between 0 and 1.
@@ -610,24 +630,24 @@ def slope_mute(
         raise ParameterError(msg)
     # Get the coordinate information
     coord_x, coord_y = (patch.get_coord(x, require_sorted=True) for x in dims)
-    origin = (dc.to_float(coord_x[0]), dc.to_float(coord_y[0]))
-    # Here we take the full range as to allow it to be negative if the
-    # coord is reversed sorted.
-    range_x = dc.to_float(coord_x[-1] - coord_x[0])
+    origin = (coord_x[0], coord_y[0])
+    # The lines extend from the origin in the direction of each coordinate.
+    range_x = np.abs(dc.to_float(coord_x[-1] - coord_x[0]))
     # Calculate endpoints for lines defined by each slope
-    dim0_vals = [[origin[0], origin[0] + range_x], [origin[0], origin[0] + range_x]]
+    end_x = _offset_origin(coord_x, range_x)
+    dim0_vals = [[origin[0], end_x], [origin[0], end_x]]
     dim1_vals = [[origin[1], None], [origin[1], None]]
     for num, slope in enumerate(slopes_array):
         # Special case for 0 and inf velocities
-        if np.isclose(slope, 0):
+        if slope == 0:
             dim0_vals[num][1] = origin[0]
-            dim1_vals[num][1] = origin[1] + 1
+            dim1_vals[num][1] = _offset_origin(coord_y, 1)
         elif np.isinf(slope):
-            dim0_vals[num][1] = origin[0] + 1
+            dim0_vals[num][1] = _offset_origin(coord_x, 1)
             dim1_vals[num][1] = origin[1]
         else:
             # Slope is rise over run (e.g., distance/time for velocity)
-            dim1_vals[num][1] = origin[1] + range_x / slope
+            dim1_vals[num][1] = _offset_origin(coord_y, range_x / slope)
     mute_kwargs = {
         dims[0]: dim0_vals,
         dims[1]: dim1_vals,
-- 
2.43.0


From 44eb283f0e54effd9dd835b5c04364481a32896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:58 +0000
Subject: [PATCH 091/134] fix: tapers of descending or uneven coordinates,
 integers, and inverted ranges

---
 dascore/core/coords.py |  2 +-
 dascore/proc/taper.py  | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 81e71ed..3ebc5f0 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -922,7 +922,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         >>> # The next (not closest) index is return for value not in coord.
         >>> assert coord.get_next_index(2.000001) == 3
         """
-        if not self.sorted:
+        if not self.sorted and not samples:
             msg = f"Coords must be sorted to use get_next_index, {self} is not."
             raise CoordError(msg)
         # Note: quantities are always Sized, even if they hold a scalar.
diff --git a/dascore/proc/taper.py b/dascore/proc/taper.py
index 7edf936..7f174c0 100644
--- a/dascore/proc/taper.py
+++ b/dascore/proc/taper.py
@@ -21,7 +21,7 @@ from dascore.utils.time import to_float
 def _get_taper_slices(patch, kwargs):
     """Get slice for start/end of patch."""
     dim, axis, value = get_dim_axis_value(patch, kwargs=kwargs)[0]
-    coord = patch.coords.coord_map[dim]
+    coord = patch.get_coord(dim, require_sorted=True)
     if isinstance(value, Sequence | np.ndarray):
         if len(value) != 2:
             msg = "Length 2 sequence required."
@@ -37,6 +37,9 @@ def _get_taper_slices(patch, kwargs):
     stop = -stop if stop is not None else stop
     _, inds_1 = coord.select((None, start), relative=True)
     _, inds_2 = coord.select((stop, None), relative=True)
+    # The smallest labels are at the end of coordinates in descending order.
+    if coord.reverse_sorted:
+        return axis, (stop, start), inds_2, inds_1
     return axis, (start, stop), inds_1, inds_2
 
 
@@ -114,6 +117,8 @@ def taper(
     func = _get_window_function(window_type)
     # get taper values in samples.
     out = np.array(patch.data)  # Need to make a copy here.
+    # Integers can't hold the tapered values.
+    out = out.astype(np.float64) if out.dtype.kind in "iub" else out
     shape = out.shape
     n_dims = len(out.shape)
     axis, samps, start_slice, end_slice = _get_taper_slices(patch, kwargs)
@@ -156,6 +161,9 @@ def _get_taper_coord_inds(coord, values, relative, samples):
             out[num] = 0 if (num / len(out)) < 0.5 else len(coord) - 1
         else:
             out[num] = coord.get_next_index(val, samples=samples, relative=relative)
+    if out != sorted(out):
+        msg = f"Taper values must be in order, but {values} are not."
+        raise ParameterError(msg)
     # Always need a len 4 sequence
     if len(out) == 2:
         out = [0, *out, len(coord)]
@@ -170,13 +178,15 @@ def _get_taper_curve(coord, ind_1, ind_2, window_type, reverse=False):
     if reverse:
         taper = taper[::-1]
     # Need to extrapolate to get correct values for non evenly sampled coords.
-    if not coord.evenly_sampled:
+    if not coord.evenly_sampled and samps > 1:
         # The current window represents the snapped (evenly sampled) coords
         old_coord = coord.select((ind_1, ind_2), samples=True)[0]
         new_coord = old_coord.snap().change_length(len(old_coord))
         old_x, new_x = to_float(old_coord.values), to_float(new_coord.values)
         assert len(old_x) == len(new_x) == len(taper)
-        taper = np.interp(new_x, old_x, taper)
+        # The interpolation needs ascending values.
+        sign = -1 if coord.reverse_sorted else 1
+        taper = np.interp(sign * old_x, sign * new_x, taper)
     return taper
 
 
@@ -192,7 +202,7 @@ def _get_range_envelope(coord, inds, window_type, invert):
         out[i3:i4] += right_taper
         out[i2:i3] += 1
     if invert:
-        out = np.abs(out - np.max(out))
+        out = np.abs(1 - out)
 
     return out
 
@@ -282,8 +292,12 @@ def taper_range(
     """
     dim, ax, values = get_dim_axis_value(patch, kwargs=kwargs)[0]
     coord = patch.get_coord(dim, require_sorted=True)
+    # The labels must be in ascending order to find their range.
+    flip = coord.reverse_sorted and not samples
+    coord = coord.sort()[0] if flip else coord
     inds = _get_taper_coord_inds(coord, values, relative, samples)
     env = _get_range_envelope(coord, inds, window_type, invert)
+    env = env[::-1] if flip else env
     # Ensure envelope broadcasts to index
     indexer = broadcast_for_index(patch.ndim, ax, value=slice(None), fill=None)
     env_broadcastable = env[indexer]
-- 
2.43.0


From 2f67f1d127e07c7c7a3fdc404da12e2d86fc3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 092/134] fix: equality compares units, attachments, dimension
 order, nulls, and labels at their scale

---
 dascore/core/coordmanager.py |  5 ++++-
 dascore/core/coords.py       |  4 ++--
 dascore/proc/basic.py        | 27 +++++++++------------------
 dascore/utils/misc.py        | 34 ++++++++++++++++++++++++++++++++++
 dascore/utils/models.py      | 29 ++++++++++++++++++++++-------
 5 files changed, 71 insertions(+), 28 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 96ca8aa..71dbdf7 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -813,7 +813,10 @@ class CoordManager(DascoreBaseModel):
             return False
         cdict_1, cdict_2 = self.coord_map, other.coord_map
         for name in s1:
-            if not cdict_1[name].approx_equal(cdict_2[name]):
+            coord1, coord2 = cdict_1[name], cdict_2[name]
+            if self.dim_map.get(name) != other.dim_map.get(name):
+                return False
+            if coord1.units != coord2.units or not coord1.approx_equal(coord2):
                 return False
         return True
 
diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 3ebc5f0..8111a9f 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -40,10 +40,10 @@ from dascore.utils.misc import (
     _maybe_array_to_slice,
     _to_slice,
     _validate_sample_values,
-    all_close,
     all_diffs_close_enough,
     cached_method,
     iterate,
+    labels_close,
     sanitize_range_param,
 )
 from dascore.utils.models import (
@@ -987,7 +987,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             return self == other
         if any(non_coords):
             return False
-        return all_close(self.values, other.values)
+        return labels_close(self.values, other.values)
 
     def change_length(self, length: int) -> Self:
         """
diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 27b92cb..406eb92 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -18,7 +18,7 @@ from dascore.core.coords import get_coord
 from dascore.exceptions import ParameterError
 from dascore.utils.array import _apply_binary_ufunc
 from dascore.utils.misc import _get_nullish
-from dascore.utils.models import ArrayLike
+from dascore.utils.models import ArrayLike, values_equal
 from dascore.utils.patch import (
     align_patch_coords,
     get_dim_axis_value,
@@ -169,7 +169,7 @@ def equals(self: PatchType, other: Any, only_required_attrs=True, close=False) -
     if not isinstance(other, type(self)):
         return False
     # Different coords are not equal; can pop out coords from attrs
-    if not self.coords == other.coords:
+    if self.dims != other.dims or not self.coords == other.coords:
         return False
     if only_required_attrs:  # only include default fields
         attrs_to_compare = set(PatchAttrs.model_fields) - {"history", "coords"}
@@ -178,24 +178,15 @@ def equals(self: PatchType, other: Any, only_required_attrs=True, close=False) -
     else:  # include all fields but coords
         attrs1 = self.attrs.model_dump(exclude=["coords"])
         attrs2 = other.attrs.model_dump(exclude=["coords"])
-    if set(attrs1) != set(attrs2):  # attrs don't have same keys; not equal
+    # Null values in both attrs, or in the same place of the data, are equal.
+    if not values_equal(attrs1, attrs2):
         return False
-    if attrs1 != attrs2:
-        # see if some values are NaNs, these should be counted equal
-        not_equal = {
-            x
-            for x in attrs1
-            if attrs1[x] != attrs2[x]
-            and not (pd.isnull(attrs1[x]) and pd.isnull(attrs2[x]))
-        }
-        if not_equal:
-            return False
     # Test data equality or proximity.
-    if close and not np.allclose(self.data, other.data):
-        return False
-    elif not close and not np.equal(self.data, other.data).all():
-        return False
-    return True
+    data1, data2 = self.data, other.data
+    if close:
+        return np.allclose(data1, data2, equal_nan=True)
+    both_null = pd.isnull(data1) & pd.isnull(data2)
+    return bool(np.all(np.equal(data1, data2) | both_null))
 
 
 def bool_patch(self: PatchType):
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index 17b9760..1ee817e 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -145,6 +145,40 @@ def all_close(ar1, ar2):
         return np.all(ar1 == ar2)
 
 
+def labels_close(ar1, ar2):
+    """
+    Return True if two arrays of labels are equal, apart from float rounding.
+
+    Unlike [`all_close`](`dascore.utils.misc.all_close`), the tolerance is a
+    small fraction of the distance between labels rather than of their
+    magnitude, so it also works for labels which are very small or far from 0.
+    """
+    ar1, ar2 = np.asarray(ar1), np.asarray(ar2)
+    if ar1.shape != ar2.shape:
+        return False
+    try:
+        equal = (ar1 == ar2) | (pd.isnull(ar1) & pd.isnull(ar2))
+    except TypeError:
+        return False
+    if np.all(equal):
+        return True
+    kinds = {ar1.dtype.kind, ar2.dtype.kind}
+    if "f" not in kinds or not kinds <= set("fiu"):
+        return False
+    tolerance = 0
+    for ar in (ar1, ar2):
+        # The dtype of the labels determines how much rounding is expected.
+        finite = ar[np.isfinite(ar)]
+        eps = np.finfo(ar.dtype).eps if ar.dtype.kind == "f" else 0
+        if finite.size:
+            max_spacing = (finite.max() - finite.min()) / max(finite.size - 1, 1)
+            rounding = 10 * eps * np.abs(finite).max()
+            tolerance = max(tolerance, 1e-5 * float(max_spacing), float(rounding))
+    with np.errstate(invalid="ignore"):
+        equal |= np.abs(ar1 - ar2) <= tolerance
+    return bool(np.all(equal))
+
+
 def _all_null(maybe_ar):
     """Return True if values is nullish, or all sub-values nullish if sequence."""
     out = pd.isnull(maybe_ar)
diff --git a/dascore/utils/models.py b/dascore/utils/models.py
index 68f4a88..e8d5627 100644
--- a/dascore/utils/models.py
+++ b/dascore/utils/models.py
@@ -14,7 +14,7 @@ from typing_extensions import Self
 from dascore.compat import array, is_array_like
 from dascore.units import Quantity, get_quantity, get_quantity_str
 from dascore.utils.mapping import FrozenDict
-from dascore.utils.misc import _all_null, all_close, to_str, unbyte
+from dascore.utils.misc import labels_close, to_str, unbyte
 from dascore.utils.time import to_datetime64, to_timedelta64
 
 # --- A list of custom types with appropriate serialization/deserialization
@@ -65,10 +65,29 @@ FrozenDictType = Annotated[
 UTF8Str = Annotated[str, PlainValidator(unbyte)]
 
 
+def values_equal(val1, val2) -> bool:
+    """Return True if two values are equal, or are both null."""
+    if is_array_like(val1) or is_array_like(val2):
+        return is_array_like(val1) and is_array_like(val2) and labels_close(val1, val2)
+    if isinstance(val1, Mapping) and isinstance(val2, Mapping):
+        same_keys = set(val1) == set(val2)
+        return same_keys and all(values_equal(val1[x], val2[x]) for x in val1)
+    if isinstance(val1, list | tuple) and isinstance(val2, list | tuple):
+        same_kind = isinstance(val1, list) == isinstance(val2, list)
+        same_length = len(val1) == len(val2)
+        return same_kind and same_length and all(map(values_equal, val1, val2))
+    if np.all(val1 == val2):
+        return True
+    null1, null2 = pd.isnull(val1), pd.isnull(val2)
+    return np.ndim(null1) == np.ndim(null2) == 0 and bool(null1 and null2)
+
+
 def sensible_model_equals(
     self: BaseModel | Mapping, other: BaseModel | Mapping
 ) -> bool:
     """Custom equality to not compare private attrs and handle numpy arrays."""
+    if not isinstance(other, BaseModel | Mapping):
+        return False
     d1 = self.model_dump() if hasattr(self, "model_dump") else self
     d2 = other.model_dump() if hasattr(other, "model_dump") else other
     if not set(d1) == set(d2):  # different keys, not equal
@@ -76,12 +95,8 @@ def sensible_model_equals(
     for name in set(x for x in d1 if not x.startswith("_")):
         # skip any private attributes.
         val1, val2 = d1[name], d2[name]
-        if is_array_like(val1):
-            if not all_close(val1, val2):
-                return False
-        else:
-            if val1 != val2 and not (_all_null(val1) and _all_null(val2)):
-                return False
+        if not values_equal(val1, val2):
+            return False
     return True
 
 
-- 
2.43.0


From 57e642991c5a65b2b8c8b33cf9794abbac2a7917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 093/134] fix: spool equality does not depend on what has been
 loaded

---
 dascore/clients/dirspool.py |  8 +++++++
 dascore/core/spool.py       | 48 +++++++++++++++++++++----------------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index 7d5c6f9..dd58bff 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -76,6 +76,14 @@ class DirectorySpool(DataFrameSpool):
         out += Text(f"\n    Select kwargs: {kwargs}") if kwargs else Text("")
         return out
 
+    def _eq_dict(self) -> dict:
+        """Get a dict for equality checks, ignoring the state of the indexer."""
+        out = super()._eq_dict()
+        indexer = out.pop("indexer")
+        index_path = getattr(indexer, "index_path", None)
+        out["_indexer"] = (type(indexer), indexer.path, index_path)
+        return out
+
     def _get_df(self):
         """Get the dataframe of current contents."""
         out = adjust_segments(
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index e63c962..0914ef1 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -477,6 +477,30 @@ class DataFrameSpool(BaseSpool):
     def __len__(self):
         return len(self._df)
 
+    def __eq__(self, other) -> bool:
+        """
+        Equality check which ignores the state of the lazy dataframes.
+
+        The managed dataframes are built and compared directly so that
+        equality does not depend on whether they were constructed yet.
+        """
+        if self is other:
+            return True
+        if not isinstance(other, DataFrameSpool):
+            return super().__eq__(other)
+        return deep_equality_check(self._eq_dict(), other._eq_dict())
+
+    def _eq_dict(self) -> dict:
+        """Get a dict for equality checks, normalizing lazy state."""
+        out = dict(self.__dict__)
+        # Build (if needed) and compare the dataframes.
+        out["_cache"] = {
+            "_df": self._df,
+            "_source_df": self._source_df,
+            "_instruction_df": self._instruction_df,
+        }
+        return out
+
     def __iter__(self):
         for ind in range(len(self._df)):
             try:
@@ -914,29 +938,11 @@ class MemorySpool(DataFrameSpool):
         else:
             yield from super().__iter__()
 
-    def __eq__(self, other) -> bool:
-        """
-        Equality check which ignores the state of the lazy dataframes.
-
-        The managed dataframes are built and compared directly so that
-        equality does not depend on whether they were constructed yet.
-        """
-        if self is other:
-            return True
-        if not isinstance(other, MemorySpool):
-            return super().__eq__(other)
-        return deep_equality_check(self._eq_dict(), other._eq_dict())
-
     def _eq_dict(self) -> dict:
         """Get a dict for equality checks, normalizing lazy state."""
-        out = dict(self.__dict__)
-        # Build (if needed) and compare the dataframes; drop the inputs
-        # they were built from, whose form can differ for equal contents.
-        out["_cache"] = {
-            "_df": self._df,
-            "_source_df": self._source_df,
-            "_instruction_df": self._instruction_df,
-        }
+        out = super()._eq_dict()
+        # Drop the inputs the dataframes were built from, whose form can
+        # differ for equal contents.
         out.pop("_patches", None)
         out.pop("_data", None)
         return out
-- 
2.43.0


From 7fa829ce56236c209ee0337a30acddc97d009856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 094/134] fix: obspy conversion keeps nanoseconds, xarray
 conversion allows unattached coords

---
 dascore/utils/io.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index 543e1b6..81032e8 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -170,9 +170,10 @@ def patch_to_xarray(patch: PatchType):
     patch_dims = patch.dims
     coords = {}
     for name, coord in patch.coords.coord_map.items():
-        if coord._partial:
-            continue
         dims = patch.coords.dim_map[name]
+        # Data arrays can't hold non coords or coords without a dimension.
+        if coord._partial or not dims:
+            continue
         coords[name] = (dims, coord.values)
     # Need to exclude non-coords
     return xr.DataArray(patch.data, attrs=attrs, dims=patch_dims, coords=coords)
@@ -221,8 +222,8 @@ def patch_to_obspy(patch: PatchType):
         dt = np.timedelta64(1, "s") / coord.step
 
         time_stats = {
-            "starttime": obspy.UTCDateTime(str(tmin)),
-            "endtime": obspy.UTCDateTime(str(tmax)),
+            "starttime": obspy.UTCDateTime(ns=int(tmin.astype(np.int64))),
+            "endtime": obspy.UTCDateTime(ns=int(tmax.astype(np.int64))),
             "sampling_rate": to_float(dt),
         }
         return time_stats
@@ -273,8 +274,9 @@ def obspy_to_patch(stream, dim="distance") -> PatchType:
 
     def _get_attrs(tr):
         """Get stats from one of the traces."""
-        # these are mainly obspy-specific things.
+        # these are mainly obspy-specific things, and the trace's own label.
         to_remove = {"starttime", "endtime", "sampling_rate", "delta", "npts", "calib"}
+        to_remove.add(dim)
         attrs = {i: v for i, v in tr.stats.items() if i not in to_remove}
         return attrs
 
@@ -289,9 +291,12 @@ def obspy_to_patch(stream, dim="distance") -> PatchType:
         new_dim.append(tr.stats[dim])
 
     dims = (dim, "time")
+    # Float timestamps can't represent nanoseconds, so use integers.
+    start, delta = tr.stats.starttime.ns, tr.stats.delta * 1_000_000_000
+    offsets = np.round(np.arange(len(tr.data)) * delta).astype(np.int64)
     coords = {
         dim: ((dim,), np.asarray(new_dim)),
-        "time": (("time",), dc.to_datetime64(tr.times("timestamp"))),
+        "time": (("time",), (start + offsets).astype("datetime64[ns]")),
     }
     attrs = _get_attrs(tr)
     patch = dc.Patch(
-- 
2.43.0


From 4d763ca2cca69c6ee3aa288bb2b7ddd6ef01b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 095/134] fix: string queries on columns with other values
 match nothing rather than raising

---
 dascore/utils/pd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 8a05ca6..7ebb4e0 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import fnmatch
 import os
+import re
 from collections import defaultdict
 from collections.abc import Collection, Mapping, Sequence
 from functools import cache
@@ -127,7 +128,12 @@ def _filter_equality(query_dict, df, bool_index):
         if isinstance(val, str):
             regex = get_regex(val)
             # missing values never match.
-            new = df[key].str.match(regex).eq(True).fillna(False).values.astype(bool)
+            col = df[key]
+            if pd.api.types.is_string_dtype(col):
+                new = col.str.match(regex).eq(True).fillna(False).values.astype(bool)
+            else:  # neither do values which aren't strings.
+                match = [isinstance(x, str) and re.match(regex, x) for x in col]
+                new = np.array(match, dtype=object).astype(bool)
             bool_index = np.logical_and(bool_index, new)
         else:
             new = (df[key] == val).values
-- 
2.43.0


From 70145eacb92996177ac363d50b27a92376f115b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 096/134] fix: patches of one file with the same extents are
 told apart by their metadata

---
 dascore/core/spool.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 0914ef1..bfa59e4 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -42,6 +42,7 @@ from dascore.utils.misc import (
     broadcast_for_index,
     deep_equality_check,
 )
+from dascore.utils.models import values_equal
 from dascore.utils.namespace import NamespaceOwner
 from dascore.utils.patch import (
     _force_patch_merge,
@@ -692,7 +693,12 @@ class DataFrameSpool(BaseSpool):
         return current, source, instruction
 
     def _get_best_patch(self, patches, kwargs) -> dc.Patch:
-        """Get the patch with the requested extents, or the first if there is none."""
+        """
+        Get the patch with the requested extents, or the first if there is none.
+
+        If several patches have them, the one with the most metadata in common
+        with the request is returned.
+        """
 
         def _has_extents(patch):
             ranges = {x: kwargs.get(x) for x in patch.dims}
@@ -702,8 +708,13 @@ class DataFrameSpool(BaseSpool):
                 if isinstance(ranges.get(dim), Sequence) and len(coord)
             )
 
+        def _metadata_in_common(patch):
+            attrs = dict(patch.attrs)
+            return sum(values_equal(attrs[x], kwargs[x]) for x in attrs if x in kwargs)
+
         if len(patches) > 1:
-            return next((x for x in patches if _has_extents(x)), patches[0])
+            candidates = [x for x in patches if _has_extents(x)] or patches[:1]
+            return max(candidates, key=_metadata_in_common)
         return patches[0]
 
     def _df_to_dict_list(self, df):
-- 
2.43.0


From 1dd521b35f8c4afabb7265356e533ea3cc576342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 097/134] fix: tdms files of complete chunks can be read,
 several chunks stay in order

---
 dascore/io/tdms/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dascore/io/tdms/utils.py b/dascore/io/tdms/utils.py
index 51f39ee..6ffc2e3 100644
--- a/dascore/io/tdms/utils.py
+++ b/dascore/io/tdms/utils.py
@@ -265,8 +265,8 @@ def _get_data(tdms_file, lead_in_length=28):
             buffer=dmap,
             offset=rdo,
         )
-        # Rotate the axes to [chunk_size, nblk, nch]
-        raw_data = np.rollaxis(raw_data, 2)
+        # Rotate the axes to [nblk, chunk_size, nch]
+        raw_data = np.transpose(raw_data, (0, 2, 1))
         data_node = np.reshape(raw_data, (n_complete_blk * fileinfo["chunk_size"], nch))
         if n_complete_blk != seg_length / fileinfo["chunk_size"]:
             # If the last chunk isn't full there is some data left
@@ -290,7 +290,7 @@ def _get_data(tdms_file, lead_in_length=28):
             # Rotate the axes to [samples, nch]
             raw_last_chunk = np.rollaxis(raw_last_chunk, 1)
             data_node = np.append(data_node, raw_last_chunk, axis=0)
-            return data_node, channel_length
+        return data_node, channel_length
 
     fileinfo, attrs = _get_fileinfo(tdms_file)
 
-- 
2.43.0


From 92af8f9e3b8aff96c617900dc346f2bfbf9d229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 098/134] fix: febus a1 partial reads return the requested rows
 with their labels

---
 dascore/io/febus/a1utils.py | 80 ++++++++-----------------------------
 1 file changed, 17 insertions(+), 63 deletions(-)

diff --git a/dascore/io/febus/a1utils.py b/dascore/io/febus/a1utils.py
index 5788db0..aff953d 100644
--- a/dascore/io/febus/a1utils.py
+++ b/dascore/io/febus/a1utils.py
@@ -12,7 +12,6 @@ from dascore.core import get_coord, get_coord_manager
 from dascore.core.coordmanager import CoordManager
 from dascore.utils.misc import (
     _maybe_unpack,
-    broadcast_for_index,
     maybe_get_items,
     tukey_fence,
     unbyte,
@@ -304,72 +303,27 @@ def _get_data_new_cm(cm, febus, distance=None, time=None):
     This is a bit more complicated since the febus data are stored in a 3d array,
     but we want a 2d output.
     """
-
-    def _get_start_end_time_array(time_coord, total_time_rows, data_shape, time):
-        """Get a 2d array where columns are start/end times for each block."""
-        block_count = data_shape[0]
-        block_duration = total_time_rows * time_coord.step
-        start = (
-            np.arange(block_count) * block_duration + time_coord.step
-        ) + time_coord.min()
-        end = start + block_duration
-        return np.stack([start, end], axis=-1)
-
-    def _get_time_filtered_data(data, t_start_end, time, total_slice, time_coord):
-        """Get new data array filtered from time query."""
-        assert len(time) == 2
-        t1, t2 = time
-        # block for which all data are needed.
-        in_time = np.ones(len(t_start_end), dtype=bool)
-        if t1 is not None and t1 is not ...:
-            in_time = np.logical_and(in_time, ~(t_start_end[:, 1] < t1))
-        if t2 is not None and t2 is not ...:
-            in_time = np.logical_and(in_time, ~(t_start_end[:, 0] > t2))
-        times = t_start_end[in_time]
-        # get start/stop indexes for complete blocks
-        start = np.argmax(in_time)
-        stop = np.argmax(np.cumsum(in_time)) + (1 if len(times) else 0)
-        total_slice[0] = slice(start, stop)
-        # load data from disk.
-        data_2d = data[tuple(total_slice)].reshape(-1, data.shape[-1])
-        # Bail out early, no size on array.
-        if not data_2d.size:
-            return data_2d, time_coord.empty()
-        # Next, get mew time coord and slice.
-        tmin = times[:, 0].min()
-        tmax = times[:, 1].max()
-        new_coord, time_slice = (
-            get_coord(min=tmin, max=tmax, step=time_coord.step)
-            .change_length(len(data_2d))
-            .select((t1, t2))
-        )
-        return data_2d[time_slice], new_coord
-
     time_info = _get_zone_time(febus)
     dist_coord, time_coord = cm.coord_map["distance"], cm.coord_map["time"]
     data = febus.zone[febus.data_name]
-    data_shape = data.shape
-    data_slice = slice(time_info.idx_start, time_info.idx_stop + 1)
-    total_slice = list(broadcast_for_index(3, 1, data_slice))
-    total_time_rows = time_info.idx_stop - time_info.idx_start + 1
-    if distance:
-        dist_coord, total_slice[2] = dist_coord.select(distance)
-    if time:  # need to sub-select blocks to get data we are after.
-        t_start_end = _get_start_end_time_array(
-            time_coord, total_time_rows, data_shape, time
-        )
-        data, time_coord = _get_time_filtered_data(
-            data, t_start_end, time, total_slice, time_coord
-        )
-    else:  # no need to mess with blocks, all time is selected
-        data_3d = data[tuple(total_slice)]
-        # Distance has been selected out (no distance remains)
-        if not len(dist_coord):
-            data = np.zeros((len(time_coord), len(dist_coord)), dtype=data_3d.dtype)
-        else:
-            data = data_3d.reshape(-1, data_3d.shape[2])
+    rows_per_block = time_info.idx_stop - time_info.idx_start + 1
+    # Rows are counted across blocks, without the redundant rows of each block.
+    row_slice, dist_slice = slice(None), slice(None)
+    if time is not None:
+        time_coord, row_slice = time_coord.select(time)
+    if distance is not None:
+        dist_coord, dist_slice = dist_coord.select(distance)
+    rows = np.arange(data.shape[0] * rows_per_block)[row_slice]
+    if not len(rows) or not len(dist_coord):
+        data_2d = np.empty((len(time_coord), len(dist_coord)), dtype=data.dtype)
+    else:  # only load the blocks which have selected rows.
+        first, last = rows.min() // rows_per_block, rows.max() // rows_per_block
+        in_block = slice(time_info.idx_start, time_info.idx_stop + 1)
+        data_3d = data[first : last + 1, in_block, dist_slice]
+        data_2d = data_3d.reshape(-1, data_3d.shape[-1])
+        data_2d = data_2d[rows - first * rows_per_block]
     cm = get_coord_manager({"time": time_coord, "distance": dist_coord}, dims=cm.dims)
-    return data, cm
+    return data_2d, cm
 
 
 def _read_febus(fi, distance=None, time=None, attr_cls=dc.PatchAttrs):
-- 
2.43.0


From a1768cb4c1f764a1b06ca8e0bcfd34ff21520561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 099/134] fix: sentek file names with less than ten seconds are
 parsed

---
 dascore/io/sentek/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/io/sentek/utils.py b/dascore/io/sentek/utils.py
index a112014..9886ed1 100644
--- a/dascore/io/sentek/utils.py
+++ b/dascore/io/sentek/utils.py
@@ -49,7 +49,7 @@ def _get_time_from_file_name(name) -> np.datetime64:
     hour = time_str[8:10]
     minute = time_str[10:12]
     second = float(time_str[12:]) / 1_000
-    iso = f"{year}-{month}-{day}T{hour}:{minute}:{second:02f}"
+    iso = f"{year}-{month}-{day}T{hour}:{minute}:{second:09.6f}"
     return np.datetime64(iso)
 
 
-- 
2.43.0


From f1bc586be1b89881c1dd9846550c5db055ec876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 100/134] fix: segy reads with no selected channel are empty
 rather than raising

---
 dascore/io/segy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/io/segy/utils.py b/dascore/io/segy/utils.py
index 2cb0ec9..31ef13c 100644
--- a/dascore/io/segy/utils.py
+++ b/dascore/io/segy/utils.py
@@ -87,13 +87,15 @@ def _get_filtered_data_and_coords(segy_fi, coords, time=None, channel=None):
         coords = coords.update(time=new_coord)
 
     # filter channel
-    if channel:
+    if channel is not None:
         channel_coord = coords.coord_map["channel"]
         new_coord, channel_inds = channel_coord.select(channel)
         coords = coords.update(channel=new_coord)
         traces_inds_to_read = traces_inds_to_read[channel_inds]
 
     # filter channels
+    if not len(traces_inds_to_read):
+        return np.empty(coords.shape, dtype=traces.dtype), coords
     data_list = [traces[x][time_slice] for x in traces_inds_to_read]
     return np.stack(data_list, axis=-1), coords
 
-- 
2.43.0


From 165b279e07fc7b990edd4262983aec2a3765cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 101/134] fix: h5simple files which state their format are
 recognized

---
 dascore/io/h5simple/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/io/h5simple/utils.py b/dascore/io/h5simple/utils.py
index 177c5d9..f1505c9 100644
--- a/dascore/io/h5simple/utils.py
+++ b/dascore/io/h5simple/utils.py
@@ -6,6 +6,7 @@ import numpy as np
 
 import dascore as dc
 from dascore.core import get_coord
+from dascore.utils.misc import unbyte
 
 # --- Getting format/version
 
@@ -132,7 +133,7 @@ def _no_format_or_simple_specified(h5):
     attrs = h5.attrs
     attr_names = set(attrs)
     file_format = attr_names & FILE_FORMAT_ATTR_NAMES
-    format = getattr(attrs, next(iter(file_format))) if file_format else "h5simple"
+    format = unbyte(attrs[next(iter(file_format))]) if file_format else "h5simple"
     if format == "h5simple":
         return True
     return False
-- 
2.43.0


From a629a507021733ad040e3744145b8b5dde2033d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 102/134] fix: pickle and febus g1 csv reads respect requested
 ranges

---
 dascore/io/febus/core.py  |  3 ++-
 dascore/io/pickle/core.py | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/dascore/io/febus/core.py b/dascore/io/febus/core.py
index 9e4c7c2..6f4046f 100644
--- a/dascore/io/febus/core.py
+++ b/dascore/io/febus/core.py
@@ -174,7 +174,8 @@ class FebusG1CSV1(FiberIO):
     def read(self, resource: TextReader, **kwargs) -> dc.BaseSpool:
         """Read a G1 file, return a Patch object."""
         pa = _get_g1_patch(resource, attr_cls=FebusBOTDRStrainAttrs)
-        return dc.spool([pa])
+        pa = pa.select(**{i: v for i, v in kwargs.items() if i in pa.dims})
+        return dc.spool([pa] if pa.data.size else [])
 
 
 class FebusMTXH5V1(FiberIO):
diff --git a/dascore/io/pickle/core.py b/dascore/io/pickle/core.py
index 80f62b5..a677275 100644
--- a/dascore/io/pickle/core.py
+++ b/dascore/io/pickle/core.py
@@ -49,8 +49,15 @@ class PickleIO(FiberIO):
 
     def read(self, resource: BinaryReader, **kwargs):
         """Read a Patch/Spool from disk."""
-        out = pickle.load(resource)
-        return dascore.spool(out)
+        spool = dascore.spool(pickle.load(resource))
+        select = {i: v for i, v in kwargs.items() if i in ("time", "distance")}
+        if not select:
+            return spool
+        patches = (
+            patch.select(**{i: v for i, v in select.items() if i in patch.dims})
+            for patch in spool
+        )
+        return dascore.spool([x for x in patches if x.data.size])
 
     def write(self, patch, resource: BinaryWriter, **kwargs):
         """Write a Patch/Spool to disk."""
-- 
2.43.0


From 6d7e2131f34a6dd9c327ca5506f01b04bce9a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 103/134] fix: gdr scan has the dimension order of the file

---
 dascore/io/gdr/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dascore/io/gdr/core.py b/dascore/io/gdr/core.py
index 7bf5957..4cc23ca 100644
--- a/dascore/io/gdr/core.py
+++ b/dascore/io/gdr/core.py
@@ -66,6 +66,7 @@ class GDR_V1(FiberIO):  # noqa
         """Get the attributes of a resource belong to this type."""
         attrs, cm, data = _get_attrs_coords_and_data(resource, snap)
         attrs["coords"] = cm.to_summary_dict()
+        attrs["dims"] = cm.dims
         attrs["path"] = resource.filename
         attrs["file_format"] = self.name
         attrs["file_version"] = self.version
-- 
2.43.0


From 675f9b645bd9787b339cab7dcdaef15367115982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 104/134] fix: ap sensing instrument_id is not misspelled

---
 dascore/io/ap_sensing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/io/ap_sensing/utils.py b/dascore/io/ap_sensing/utils.py
index 9946b67..8b471e7 100644
--- a/dascore/io/ap_sensing/utils.py
+++ b/dascore/io/ap_sensing/utils.py
@@ -80,7 +80,7 @@ def _get_attrs_dict(resource):
     out = dict(
         coords=_get_coords(resource),
         data_category="DAS",
-        instrumet_id=unbyte(_maybe_unpack(daq["SerialNumber"])),
+        instrument_id=unbyte(_maybe_unpack(daq["SerialNumber"])),
         gauge_length=_maybe_unpack(pserver["GaugeLength"]),
         radians_to_nano_strain=_maybe_unpack(pserver["RadiansToNanoStrain"]),
     )
-- 
2.43.0


From 6e6e7d67e524784459f81330d7f4cf423a70d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 105/134] fix: empty selections of arrays on disk don't raise

---
 dascore/utils/misc.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index 1ee817e..8be5be2 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -724,6 +724,15 @@ def _to_slice(limits):
     return slice(start, stop)
 
 
+def _selects_nothing(index):
+    """Return True if the index, a slice or array, never selects anything."""
+    if isinstance(index, slice):
+        bounds = (index.start, index.stop)
+        ints = all(isinstance(x, int | np.integer) for x in bounds)
+        return ints and bounds[0] == bounds[1]
+    return is_array(index) and not (index.any() if index.dtype == bool else len(index))
+
+
 def _apply_union_indexers(indexer, array):
     """
     Apply indexers to array getting the union of indices.
@@ -737,6 +746,12 @@ def _apply_union_indexers(indexer, array):
     """
     if array is None:  # no array passed, just return.
         return array
+    # Arrays on disk may not support arrays in selections of nothing.
+    if not is_array(array) and any(_selects_nothing(x) for x in indexer):
+        indexer = tuple(slice(0, 0) if _selects_nothing(x) else x for x in indexer)
+        slices = tuple(slice(None) if is_array(x) else x for x in indexer)
+        indexer = tuple(x if is_array(x) else slice(None) for x in indexer)
+        array = np.asarray(array[slices])
     array_count = sum(is_array(x) for x in indexer)
     if array_count > 1:
         out = array
-- 
2.43.0


From 9c20d9516e80552f3e1a5251b063f84a6f88aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 106/134] fix: a damaged file does not stop the scan of other
 files

---
 dascore/io/core.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 39688c8..fb007c6 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -32,7 +32,6 @@ from dascore.constants import (
 from dascore.core.attrs import str_validator
 from dascore.core.spool import DataFrameSpool
 from dascore.exceptions import (
-    InvalidFiberFileError,
     InvalidFiberIOError,
     MissingOptionalDependencyError,
     UnknownFiberFormatError,
@@ -893,21 +892,21 @@ def scan(
                         continue
                     # Directory FiberIO may need to know the time after which
                     # contents should be returned.
-                    source = fiber_io.scan(
-                        resource, timestamp=timestamp, _pre_cast=True
-                    )
+                    scan_kwargs = {"timestamp": timestamp}
                 else:
-                    try:
-                        source = fiber_io.scan(resource, _pre_cast=True)
-                    # This happens if the file is corrupt see #346.
-                    except (OSError, InvalidFiberFileError, ValueError, TypeError):
-                        warnings.warn(f"Failed to scan {resource}", UserWarning)
-                        continue
-                    except MissingOptionalDependencyError as ex:
-                        missing_optional_deps[ex.msg.split(" ")[0]] += 1
-                        continue
-                for attr in source:
-                    out.append(dc.PatchAttrs.from_dict(attr))
+                    scan_kwargs = {}
+                try:
+                    source = fiber_io.scan(resource, _pre_cast=True, **scan_kwargs)
+                    attrs = [dc.PatchAttrs.from_dict(attr) for attr in source]
+                except MissingOptionalDependencyError as ex:
+                    missing_optional_deps[ex.msg.split(" ")[0]] += 1
+                    continue
+                # This happens if the file is corrupt see #346. Any exception can
+                # occur then, but must not stop the other files being scanned.
+                except Exception:
+                    warnings.warn(f"Failed to scan {resource}", UserWarning)
+                    continue
+                out.extend(attrs)
     # Ensure ctl + c exists scan.
     except KeyboardInterrupt:
         getattr(progress, "stop", lambda: None)()
-- 
2.43.0


From a161dbe0ac751fba9fcb5e176ae5b1dff8e4c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 107/134] fix: malformed metadata of one file does not stop
 indexing others

---
 dascore/io/indexer.py | 2 ++
 dascore/utils/hdf5.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 12f15a8..69744e0 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -376,6 +376,8 @@ class DirectoryIndexer(AbstractIndexer):
             times = df["time_min"] if "time_min" in df.columns else [None] * len(df)
             is_time = [isinstance(x, np.datetime64 | datetime) for x in times]
             df = df[is_time & pd.notnull(np.asarray(times))]
+            # Nor can malformed steps, eg arrays, which damaged files may have.
+            df = df[[np.ndim(x) == 0 for x in df["time_step"]]]
         if not df.empty:
             # Rows with other types are gone, so the columns can be converted.
             df = df.assign(
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 0c7b34c..c538501 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -329,7 +329,7 @@ class HDFPatchIndexManager:
         """Return True if no string is too long for a table written before."""
         sub = df.select_dtypes(exclude=["number", "bool"])
         limit = max(self._min_itemsize.values())
-        return all(len(str(x).encode()) <= limit for col in sub for x in sub[col])
+        return all(len(str(x).encode(errors="surrogateescape")) <= limit for col in sub for x in sub[col])
 
     def _update_metadata(self, store, update_time):
         # update timestamp
@@ -379,6 +379,8 @@ class HDFPatchIndexManager:
             complevel=self._complevel,
             format="table",
             data_columns=list(self._query_columns),
+            # Metadata of files may not be valid unicode.
+            errors="surrogateescape",
         )
 
     @cached_method
-- 
2.43.0


From 420ed1183e8d656b3ecf41e4bf2cb6188bcf1860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 108/134] fix: pickles of other objects are not taken for
 patches

---
 dascore/io/pickle/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dascore/io/pickle/core.py b/dascore/io/pickle/core.py
index a677275..2f2c7c2 100644
--- a/dascore/io/pickle/core.py
+++ b/dascore/io/pickle/core.py
@@ -40,10 +40,10 @@ class PickleIO(FiberIO):
             start = resource.read(100)  # read first 100 bytes, look for class names
             if self._header_is_dascore(start):
                 getattr(resource, "seek", lambda x: None)(0)
-                pickle.load(resource)
-                return ("PICKLE", self.version)  # TODO add pickle protocol
-            else:
-                return False
+                out = pickle.load(resource)
+                if isinstance(out, dascore.Patch | dascore.BaseSpool):
+                    return ("PICKLE", self.version)  # TODO add pickle protocol
+            return False
         except (pickle.UnpicklingError, FileNotFoundError, IndexError):
             return False
 
-- 
2.43.0


From aa25a1a90516ce483981c4593ba95278d211d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 109/134] fix: truncated tdms files don't return scrambled
 data, noise is not tdms

---
 dascore/io/tdms/utils.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/dascore/io/tdms/utils.py b/dascore/io/tdms/utils.py
index 6ffc2e3..3380cb3 100644
--- a/dascore/io/tdms/utils.py
+++ b/dascore/io/tdms/utils.py
@@ -11,6 +11,7 @@ import numpy as np
 
 from dascore.core.attrs import PatchAttrs
 from dascore.core.coords import get_coord
+from dascore.exceptions import InvalidFiberFileError
 from dascore.utils.time import to_datetime64, to_timedelta64
 
 DEFAULT_ATTRS = set(PatchAttrs.model_fields)
@@ -74,6 +75,9 @@ TDS_READ_VAL = dict(
     }
 )
 
+# All of the versions defined by the TDMS specification.
+TDMS_VERSIONS = frozenset(("4712", "4713"))
+
 DECIMATE_MASK = 0b00100000
 FILEINFO_NAMES = (
     "file_tag",
@@ -105,9 +109,9 @@ def _get_version_str(tdms_file, lead_in_length=28) -> str:
     # lead_in is 28 bytes:
     # [string of length 4][int32][int32][int64][int64]
     fields = struct.unpack("<4siiQQ", lead_in)
+    version_str = str(fields[2])
     # TODO: validate file
-    if fields[0].decode() in "TDSm":
-        version_str = str(fields[2])
+    if fields[0] == b"TDSm" and version_str in TDMS_VERSIONS:
         return version_str
     else:
         return False
@@ -183,7 +187,8 @@ def _get_all_attrs(tdms_file, lead_in_length=28):
     fileinfo["raw_data_offset"] += lead_in_length
     fileinfo["file_size"] = os.path.getsize(tdms_file.name)
     # Make sure next segment does not go beyond file capacity
-    if fileinfo["next_segment_offset"] > fileinfo["file_size"]:
+    is_truncated = fileinfo["next_segment_offset"] > fileinfo["file_size"]
+    if is_truncated:
         fileinfo["next_segment_offset"] = fileinfo["file_size"]
     # navigate pointer to immediately after lead in data
     tdms_file.seek(lead_in_length, 0)
@@ -219,13 +224,22 @@ def _get_all_attrs(tdms_file, lead_in_length=28):
     fileinfo["data_type"] = TDS_DATA_TYPE.get(struct.unpack("<i", tdms_file.read(4))[0])
     if fileinfo["data_type"] not in ("int16", "float32"):
         raise Exception("Unsupported TDMS data type: " + fileinfo["data_type"])
+    # Skip dimension of the raw data array (has to be 1), then get chunk size.
+    _ = struct.unpack("<i", tdms_file.read(4))[0]
+    fileinfo["chunk_size"] = struct.unpack("<i", tdms_file.read(4))[0]
     # get number of samples by dividing amount of unread data by the
     # size of data per channel
-    numofsamples = (
-        (fileinfo["file_size"] - fileinfo["raw_data_offset"])
-        / n_channels
-        / np.dtype(fileinfo["data_type"]).itemsize
-    )
+    row_size = n_channels * np.dtype(fileinfo["data_type"]).itemsize
+    numofsamples = (fileinfo["file_size"] - fileinfo["raw_data_offset"]) / row_size
+    # If the file is truncated only the complete chunks (or rows) have all channels.
+    if is_truncated:
+        chunk_size = fileinfo["chunk_size"] if fileinfo["decimated"] else 1
+        numofsamples = int(numofsamples // chunk_size * chunk_size)
+        if numofsamples <= 0:
+            msg = f"{tdms_file.name} is truncated and has no complete data."
+            raise InvalidFiberFileError(msg)
+        data_end = fileinfo["raw_data_offset"] + numofsamples * row_size
+        fileinfo["next_segment_offset"] = fileinfo["file_size"] = data_end
     t_coord = _get_time_coord(out, numofsamples)
     out["coords"] = {"time": t_coord, "distance": d_coord}
     out.update(t_coord.get_attrs_dict("time"))
@@ -236,9 +250,6 @@ def _get_all_attrs(tdms_file, lead_in_length=28):
 def _get_fileinfo(tdms_file, lead_in_length=28):
     """Get info about file not included in the attributes."""
     attrs, fileinfo = _get_all_attrs(tdms_file)
-    # Read Dimension of the raw data array (has to be 1):
-    _ = struct.unpack("<i", tdms_file.read(4))[0]
-    fileinfo["chunk_size"] = struct.unpack("<i", tdms_file.read(4))[0]
     return fileinfo, attrs
 
 
-- 
2.43.0


From 5e401eb00c22e0bceede99c8fee8d5c6b77c9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 110/134] fix: hdf5 files without sources or arrays are not
 febus or h5simple files

---
 dascore/io/febus/a1utils.py  | 6 +++---
 dascore/io/h5simple/utils.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dascore/io/febus/a1utils.py b/dascore/io/febus/a1utils.py
index aff953d..18ead17 100644
--- a/dascore/io/febus/a1utils.py
+++ b/dascore/io/febus/a1utils.py
@@ -180,7 +180,7 @@ def _get_febus_version_str(hdf_fi) -> str:
         "WholeExtent",
         "SamplingRate",
     }
-    is_febus = True
+    is_febus, has_source = True, False
     # Version 1, or what I think is version one (eg Valencia PubDAS data)
     # did not include a Version attr in Source dataset, so we use that as
     # the default.
@@ -190,12 +190,12 @@ def _get_febus_version_str(hdf_fi) -> str:
         source_keys = set(inst.keys())
         is_febus = is_febus and all(x.startswith("Source") for x in source_keys)
         for source_key in source_keys:
-            source = inst[source_key]
+            source, has_source = inst[source_key], True
             # If the version is set in a Source use that version.
             # Hopefully this is the file version...
             version = unbyte(source.attrs.get("Version", version)).split(".")[0]
             is_febus = is_febus and expected_source_attrs.issubset(set(source.attrs))
-    if inst_keys and is_febus:
+    if has_source and is_febus:
         return version
     return ""
 
diff --git a/dascore/io/h5simple/utils.py b/dascore/io/h5simple/utils.py
index f1505c9..4e96ba9 100644
--- a/dascore/io/h5simple/utils.py
+++ b/dascore/io/h5simple/utils.py
@@ -122,7 +122,7 @@ def _is_h5simple(h5):
 
 def _has_required_arrays(h5):
     """Determine if h5 file has required arrays to be h5 simple."""
-    array_names = set(h5)
+    array_names = {x for x in h5 if hasattr(h5.get(x), "shape")}
     data_node = array_names & DATA_ARRAY_NAMES
     time_node = array_names & TIME_ARRAY_NAMES
     return bool(data_node) and bool(time_node)
-- 
2.43.0


From 80f40da9038024be45dcf3b27c2a01c2d598ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 111/134] fix: files too short for their header are not sentek
 files

---
 dascore/io/sentek/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dascore/io/sentek/utils.py b/dascore/io/sentek/utils.py
index 9886ed1..f3dea3a 100644
--- a/dascore/io/sentek/utils.py
+++ b/dascore/io/sentek/utils.py
@@ -8,6 +8,7 @@ import numpy as np
 
 import dascore as dc
 from dascore.core import get_coord, get_coord_manager
+from dascore.utils.misc import get_buffer_size
 
 
 def _get_version(fid):
@@ -30,9 +31,13 @@ def _get_version(fid):
     # Then check if strain_rate value is valid.
     strain_rate = int(np.fromfile(fid, dtype=np.float32, count=1)[0])
     proper_strain_rate = strain_rate in {0, 1}
+    if not (sw_data and is_positive and proper_strain_rate and nearly_ints):
+        return False
+    # Finally, the file must be large enough for the measurements.
+    expected_size = 4 * int(measurement_count) * (int(sensor_num) + 1)
     # Note: We will need to modify this later for different versions of the
     # sentek data, but for now we only support 5.
-    if sw_data and is_positive and proper_strain_rate and nearly_ints:
+    if get_buffer_size(fid) >= expected_size:
         return ("sentek", "5")
     return False
 
-- 
2.43.0


From e74a26678db871bd8e46b9b0768421986715b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 112/134] fix: sintela, xml and tdms patches don't keep their
 files mapped

The data of these patches were views of memory maps, so the files stayed open
and later changes to them changed the patches. XMLBinary opened the files for
writing.
---
 dascore/io/sintela_binary/utils.py |  3 +--
 dascore/io/tdms/utils.py           |  4 +++-
 dascore/io/xml_binary/utils.py     | 10 +++++-----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/dascore/io/sintela_binary/utils.py b/dascore/io/sintela_binary/utils.py
index 1a35021..7a89c56 100644
--- a/dascore/io/sintela_binary/utils.py
+++ b/dascore/io/sintela_binary/utils.py
@@ -13,7 +13,6 @@ Notes
 import numpy as np
 
 import dascore as dc
-from dascore.compat import array
 from dascore.core.attrs import PatchAttrs
 from dascore.core.coordmanager import get_coord_manager
 from dascore.core.coords import get_coord
@@ -225,5 +224,5 @@ def _get_patches(
         cm, data = cm.select(data, time=time, distance=distance)
     if not data.size:  # no data in this slice.
         return []
-    patch = dc.Patch(data=array(data), coords=cm, attrs=patch_attrs)
+    patch = dc.Patch(data=np.array(data), coords=cm, attrs=patch_attrs)
     return [patch]
diff --git a/dascore/io/tdms/utils.py b/dascore/io/tdms/utils.py
index 3380cb3..90cddb2 100644
--- a/dascore/io/tdms/utils.py
+++ b/dascore/io/tdms/utils.py
@@ -278,7 +278,9 @@ def _get_data(tdms_file, lead_in_length=28):
         )
         # Rotate the axes to [nblk, chunk_size, nch]
         raw_data = np.transpose(raw_data, (0, 2, 1))
-        data_node = np.reshape(raw_data, (n_complete_blk * fileinfo["chunk_size"], nch))
+        # This is a copy so the file doesn't stay mapped.
+        data_shape = (n_complete_blk * fileinfo["chunk_size"], nch)
+        data_node = np.array(np.reshape(raw_data, data_shape))
         if n_complete_blk != seg_length / fileinfo["chunk_size"]:
             # If the last chunk isn't full there is some data left
             additional_samples = int(
diff --git a/dascore/io/xml_binary/utils.py b/dascore/io/xml_binary/utils.py
index a9dc9b5..530811d 100644
--- a/dascore/io/xml_binary/utils.py
+++ b/dascore/io/xml_binary/utils.py
@@ -161,17 +161,17 @@ def _read_single_file(path, metadata, time, distance):
         {"time": time_coord, "distance": distance_coord},
         dims=attr.dim_tuple,
     )
-    memmap = np.memmap(path, dtype=metadata.data_type)
+    memmap = np.memmap(path, dtype=metadata.data_type, mode="r")
     size = np.prod(cm.shape)
     assert memmap.size == size, f"wrong data shape for {path}"
-    data = memmap.reshape(cm.shape)
-    patch = dc.Patch(
-        data=data,
+    cm, data = cm.select(memmap.reshape(cm.shape), time=time, distance=distance)
+    # Only the selected data are loaded; the file is not kept open.
+    return dc.Patch(
+        data=np.array(data),
         dims=attr.dim_tuple,
         coords=cm,
         attrs=attr.update(coord=None),
     )
-    return patch.select(time=time, distance=distance)
 
 
 def _load_patches(paths, metadata, time, distance, attr_cls):
-- 
2.43.0


From 5276cc928f827350cd177bb6bfeaf817ee11033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 113/134] fix: readers of missing files don't create their
 parent directories

Also the HDF5 readers return open h5py files, rather than trying to open them.
---
 dascore/utils/hdf5.py | 5 +++--
 dascore/utils/io.py   | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index c538501..1536ab8 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -455,10 +455,11 @@ class PyTablesReader(PyTablesFile):
     @classmethod
     def get_handle(cls, resource):
         """Get the File object from various sources."""
-        if isinstance(resource, cls | PyTablesFile):
+        if isinstance(resource, cls | cls.constructor | PyTablesFile):
             return resource
         try:
-            _maybe_make_parent_directory(resource)
+            if cls.mode != "r":
+                _maybe_make_parent_directory(resource)
             return cls.constructor(resource, mode=cls.mode)
         except TypeError:
             msg = f"Couldn't get handle from {resource} using {cls}"
diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index 81032e8..0022828 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -44,7 +44,8 @@ class BinaryReader(io.BytesIO):
                 resource.seek(0)  # reset byte offset
             return resource
         try:
-            _maybe_make_parent_directory(resource)
+            if not cls.mode.startswith("r"):
+                _maybe_make_parent_directory(resource)
             return open(resource, mode=cls.mode)
         except TypeError:
             msg = f"Couldn't get handle from {resource} using {cls}"
@@ -71,7 +72,8 @@ class TextReader(BinaryReader):
                 resource.seek(0)
             return resource
         try:
-            _maybe_make_parent_directory(resource)
+            if not cls.mode.startswith("r"):
+                _maybe_make_parent_directory(resource)
             return open(resource, mode=cls.mode, encoding="utf-8")
         except TypeError:
             msg = f"Couldn't get handle from {resource} using {cls}"
-- 
2.43.0


From 0d31b61e87e46e3adefc3b890b41e9a8c2d08a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 114/134] fix: files are closed when reading them fails

The handle opened for a reader (or scan, or get_format) which raised was
left open.
---
 dascore/io/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index fb007c6..7df94c5 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -419,7 +419,7 @@ def _type_caster(func, sig, required_type, arg_name):
             return func(*args, **kwargs)
         bound = sig.bind(*args, **kwargs)
         new_kw = bound.arguments
-        resource = new_kw.pop(arg_name)
+        resource = new_resource = new_kw.pop(arg_name)
         try:
             new_resource = get_handle_from_resource(resource, required_type)
             new_kw[arg_name] = new_resource
@@ -431,7 +431,7 @@ def _type_caster(func, sig, required_type, arg_name):
                 out = False
             else:
                 raise e
-        else:
+        finally:
             # if a new file handle was created we need to close it now. But it
             # shouldn't close any passed in, that should happen up the stack.
             if new_resource is not resource and hasattr(new_resource, "close"):
-- 
2.43.0


From f1abc9cfd320533dfdfcebea8940fb67560c9266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 115/134] fix: scan's warning about a damaged file names the
 file

Formatting the handle of a damaged PyTables file could raise again.
---
 dascore/io/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 7df94c5..8176c52 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -904,7 +904,7 @@ def scan(
                 # This happens if the file is corrupt see #346. Any exception can
                 # occur then, but must not stop the other files being scanned.
                 except Exception:
-                    warnings.warn(f"Failed to scan {resource}", UserWarning)
+                    warnings.warn(f"Failed to scan {man.source}", UserWarning)
                     continue
                 out.extend(attrs)
     # Ensure ctl + c exists scan.
-- 
2.43.0


From 395ab89f46ec1e6862ebadfa7dd19d71e4d8e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 116/134] fix: directories without times can still be indexed

---
 dascore/io/indexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 69744e0..a2428d3 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -377,7 +377,8 @@ class DirectoryIndexer(AbstractIndexer):
             is_time = [isinstance(x, np.datetime64 | datetime) for x in times]
             df = df[is_time & pd.notnull(np.asarray(times))]
             # Nor can malformed steps, eg arrays, which damaged files may have.
-            df = df[[np.ndim(x) == 0 for x in df["time_step"]]]
+            if not df.empty:
+                df = df[[np.ndim(x) == 0 for x in df["time_step"]]]
         if not df.empty:
             # Rows with other types are gone, so the columns can be converted.
             df = df.assign(
-- 
2.43.0


From cec91c755bc97ce7e7b041f67fbd6e7e09cdafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 117/134] fix: select from spools with repeated index labels,
 eg chunked spools

---
 dascore/utils/pd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 7ebb4e0..0ff5d2b 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -327,9 +327,12 @@ def adjust_segments(df, ignore_bad_kwargs=False, **kwargs):
         new_min = np.where(too_small, new_min, start)
         new_max = np.where(too_large, new_max, stop)
         has_samples = new_min <= new_max
-        new_min, new_max = pd.Series(new_min, out.index), pd.Series(new_max, out.index)
-        out.loc[too_large, too_large.name] = new_max.where(has_samples, max_val)
-        out.loc[too_small, too_small.name] = new_min.where(has_samples, min_val)
+        new_min, new_max = pd.Series(new_min), pd.Series(new_max)
+        new_min = new_min.where(has_samples, min_val).values
+        new_max = new_max.where(has_samples, max_val).values
+        # Labels of the index may not be unique (eg chunked spools).
+        out.loc[too_large, too_large.name] = new_max[too_large.values]
+        out.loc[too_small, too_small.name] = new_min[too_small.values]
         not_modified &= ~(too_small.values | too_large.values)
     return out.assign(_modified=~not_modified)
 
-- 
2.43.0


From c0fac69a79e8bb48e201805cd8ef3cb57d303def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 118/134] fix: formats looked up by several threads wait for
 their plugins

A thread could see only some of the versions of a format which another
thread was loading.
---
 dascore/io/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 8176c52..74415f2 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 
 import inspect
 import os.path
+import threading
 import warnings
 from collections import defaultdict
 from collections.abc import Generator
@@ -106,6 +107,9 @@ class _FiberIOManager:
     This should only be used in conjunction with `FiberIO`.
     """
 
+    # Ensures formats aren't used before all of their versions are loaded.
+    _lock = threading.RLock()
+
     def __init__(self, entry_point: str):
         self._entry_point = entry_point
         self._loaded_eps: set[str] = set()
@@ -174,6 +178,11 @@ class _FiberIOManager:
     @cached_method
     def load_plugins(self, format: str | None = None):
         """Load plugin for specific format or ensure all formats are loaded."""
+        with self._lock:
+            self._load_plugins(format)
+
+    def _load_plugins(self, format: str | None = None):
+        """Load plugins which haven't yet been loaded."""
         if format is not None and format in self._format_version:
             return  # already loaded
         if not (unloaded := self.unloaded_formats):
-- 
2.43.0


From cd8bc6617396f11518c1c7c645ea1f2050a8927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 119/134] fix: spools used by several threads can be copied

Another thread could fill the cache while it was copied.
---
 dascore/clients/dirspool.py  | 2 +-
 dascore/clients/filespool.py | 2 +-
 dascore/core/spool.py        | 4 ++++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index dd58bff..421fc3a 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -57,7 +57,7 @@ class DirectorySpool(DataFrameSpool):
         super().__init__(select_kwargs=select_kwargs, merge_kwargs=merge_kwargs)
         # Init file spool from another file spool
         if isinstance(base_path, self.__class__):
-            self.__dict__.update(copy.deepcopy(base_path.__dict__))
+            self.__dict__.update(copy.deepcopy(base_path._get_state()))
             return
         # Init file spool from indexer
         elif isinstance(base_path, AbstractIndexer):
diff --git a/dascore/clients/filespool.py b/dascore/clients/filespool.py
index b76c604..baf4e7a 100644
--- a/dascore/clients/filespool.py
+++ b/dascore/clients/filespool.py
@@ -44,7 +44,7 @@ class FileSpool(DataFrameSpool):
         super().__init__()
         # Init file spool from another file spool
         if isinstance(path, self.__class__):
-            self.__dict__.update(copy.deepcopy(path.__dict__))
+            self.__dict__.update(copy.deepcopy(path._get_state()))
             return
         self._path = Path(path)
         if not self._path.exists() or self._path.is_dir():
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index bfa59e4..76ace50 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -437,6 +437,10 @@ class DataFrameSpool(BaseSpool):
         self._select_kwargs = {} if select_kwargs is None else select_kwargs
         self._merge_kwargs = {} if merge_kwargs is None else merge_kwargs
 
+    def _get_state(self) -> dict:
+        """Get the attributes of the spool, other threads may fill the cache."""
+        return {**self.__dict__, "_cache": dict(self._cache)}
+
     def _select_from_array(self, array) -> Self:
         """Create new spool with contents changed from array input."""
         if np.issubdtype(array.dtype, np.bool_):  # boolean select
-- 
2.43.0


From 2ca029f72a2644b17b7a23f3ddbff894db0f3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 120/134] fix: callables without names can be mapped over
 spools

For example partials and callable objects.
---
 dascore/utils/misc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index 8be5be2..b5390c8 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -530,6 +530,11 @@ def cached_method(func):
     return wrapper
 
 
+def _get_func_name(func) -> str:
+    """Get a name for any callable, eg partials don't have a __name__."""
+    return getattr(func, "__name__", func.__class__.__name__)
+
+
 class _MapFuncWrapper:
     """A class for unwrapping spools to base applies."""
 
@@ -544,7 +549,7 @@ class _MapFuncWrapper:
         # to the first spool. This way only the first spool displays the
         # the progress bar. A huge hack, maybe there is a better way? See #265.
         if not getattr(spool, "_no_progress", False):
-            desc = f"Applying {self._func.__name__} to spool"
+            desc = f"Applying {_get_func_name(self._func)} to spool"
             iterable = track(spool, desc) if self._progress else spool
         return [self._func(x, **self._kwargs) for x in iterable]
 
@@ -567,14 +572,14 @@ def _spool_map(spool, func, size=None, client=None, progress=True, **kwargs):
         Keywords passed to func.
     """
     # no client; simple for loop.
-    desc = f"Applying {func.__name__} to spool"
+    desc = f"Applying {_get_func_name(func)} to spool"
     if client is None:
         iterable = track(spool, desc) if progress else spool
         return [func(patch, **kwargs) for patch in iterable]
     # Now things get interesting. We need to split the spool here
     # so that patches don't get serialized.
     if size is None:
-        size = len(spool) / os.cpu_count()
+        size = max(len(spool) / os.cpu_count(), 1)
     spools = list(spool.split(size=size))
     # this is a hack to get the progress bar to work. Essentially, we just
     # add a secret flag to all but one spool so that progress bar is only
-- 
2.43.0


From c3908c3b1ab334b441d50753dd0db111e4ab3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 121/134] fix: split refuses sizes and counts for which it
 never ends

---
 dascore/core/spool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 76ace50..a15ddf4 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -866,6 +866,9 @@ class DataFrameSpool(BaseSpool):
         if not ((count is not None) ^ (size is not None)):
             msg = "Spool.split requires either spool_count or spool_size."
             raise ParameterError(msg)
+        if (count if size is None else size) <= 0:
+            msg = "The size or count of Spool.split must be greater than 0."
+            raise ParameterError(msg)
         start = 0
         step = int(np.ceil(len(self) / count if count else size))
         while start < len(self):
-- 
2.43.0


From d1a9604aae401e6659ea44053fff3aef7c55747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 122/134] fix: waterfall limits of integers and axes of
 reversed coordinates

Ranges of integer data overflowed, the automatic limits used wrong quartiles
for small integer types, images of reverse sorted coordinates were not flipped,
and an axis which was already inverted was inverted again.
---
 dascore/utils/misc.py    |  3 +++
 dascore/viz/waterfall.py | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index b5390c8..a2b42df 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -970,6 +970,9 @@ def tukey_fence(data, fence_multiplier=1.5) -> np.ndarray:
     """
     Apply Tukey's fence to determine data range without outliers.
     """
+    if np.issubdtype(np.asarray(data).dtype, np.integer):
+        # Differences between neighbouring values may not fit in the data's type.
+        data = np.asarray(data, dtype=np.float64)
     q1, q3 = np.nanpercentile(data, [25, 75])
     dmin, dmax = np.nanmin(data), np.nanmax(data)
     diff = q3 - q1  # Interquartile range (IQR)
diff --git a/dascore/viz/waterfall.py b/dascore/viz/waterfall.py
index bf11965..882ce66 100644
--- a/dascore/viz/waterfall.py
+++ b/dascore/viz/waterfall.py
@@ -72,7 +72,8 @@ def _get_scale(scale, scale_type, data):
                     "Relative scale value of 0 would produce degenerate colorbar limits"
                 )
                 raise ParameterError(msg)
-            mod = 0.5 * (np.nanmax(data) - np.nanmin(data))
+            # Convert limits to float so differences of integers don't overflow.
+            mod = 0.5 * (float(np.nanmax(data)) - float(np.nanmin(data)))
             if mod == 0:
                 # Constant data, use small epsilon to avoid degenerate limits
                 mod = 1e-10
@@ -96,7 +97,7 @@ def _get_scale(scale, scale_type, data):
                     f"value must be less than the second. You passed {scale}"
                 )
                 raise ParameterError(msg)
-            dmin, dmax = np.nanmin(data), np.nanmax(data)
+            dmin, dmax = float(np.nanmin(data)), float(np.nanmax(data))
             data_range = dmax - dmin
             # Map [0, 1] to [data_min, data_max]
             scale = dmin + scale * data_range
@@ -121,7 +122,7 @@ def _format_axis_labels(ax, patch, dims_r):
             _format_time_axis(ax, dim, x)
         # Invert the y axis so origin is at the top. This follows the
         # convention for seismic shot gathers where time increases downward.
-        if x == "y" and dtype_time_like(dtype):
+        if x == "y" and dtype_time_like(dtype) and not ax.yaxis_inverted():
             ax.invert_yaxis()
 
 
@@ -356,7 +357,9 @@ def waterfall(
     # Setup axes and data
     ax = _get_ax(ax)
     if log:
-        data = np.log10(np.abs(patch.data) + np.finfo(np.float64).eps)
+        # Converting first keeps the absolute values of integers from overflowing.
+        data = patch.data.astype(np.float64)
+        data = np.log10(np.abs(data) + np.finfo(np.float64).eps)
     else:
         data = patch.data
     dims = patch.dims
@@ -368,6 +371,9 @@ def waterfall(
     use_image = all(coord.evenly_sampled for coord in dim_coords.values())
     if use_image or not all(is_monotonic_and_finite(x) for x in coords.values()):
         extents = _get_extents(dims_r, coords)
+        # The extents increase, so the data must also be in order of their labels.
+        flip = [i for i, x in enumerate(dims) if dim_coords[x].reverse_sorted]
+        data = np.flip(data, axis=flip)
         with mpl.rc_context({"image.resample": True}):
             im = ax.imshow(
                 data,
-- 
2.43.0


From 16fcacb22d5c029b13fd5f501efe14c27f7d64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 123/134] fix: spectrogram plots keep length one time and
 frequency axes

---
 dascore/viz/spectrogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/viz/spectrogram.py b/dascore/viz/spectrogram.py
index 206354c..bd3a191 100644
--- a/dascore/viz/spectrogram.py
+++ b/dascore/viz/spectrogram.py
@@ -89,8 +89,8 @@ def spectrogram(
             patch_aggr = patch.aggregate(other_dim, method="mean", dim_reduce="squeeze")
             spec = patch_aggr.spectrogram(dim, **kwargs)
         elif aggr_domain == "frequency":
-            _spec = patch.spectrogram(dim, **kwargs).squeeze()
-            spec = _spec.aggregate(other_dim, method="mean").squeeze()
+            _spec = patch.spectrogram(dim, **kwargs)
+            spec = _spec.aggregate(other_dim, method="mean").squeeze(other_dim)
         else:
             raise ValueError(
                 f"The aggr_domain '{aggr_domain}' should be 'time' or 'frequency'."
-- 
2.43.0


From 6e1173762cd3793eed450722182248197ac6a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 124/134] fix: wiggle plots of integers, nulls, and time on the
 y axis

The range of integer traces overflowed, a single null value blanked the whole
plot (or raised), and traces of a time dimension were labelled with dates from
1970.
---
 dascore/viz/wiggle.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/dascore/viz/wiggle.py b/dascore/viz/wiggle.py
index 37e966b..82f8b1e 100644
--- a/dascore/viz/wiggle.py
+++ b/dascore/viz/wiggle.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+import string
+
 import matplotlib.pyplot as plt
 import numpy as np
 
@@ -19,10 +21,18 @@ def _get_offsets_factor(patch, dim, scale, other_labels):
     """Get the offsets and scale the data."""
     dim_axis = patch.get_axis(dim)
     # get and apply scale_factor. This controls how far apart the wiggles are.
-    diffs = np.max(patch.data, axis=dim_axis) - np.min(patch.data, axis=dim_axis)
-    offsets = (np.median(diffs) * scale) * np.arange(len(other_labels))
+    data = patch.data
+    if np.issubdtype(data.dtype, np.integer) or np.issubdtype(data.dtype, np.bool_):
+        # The range of integers may not fit in their own type.
+        data = data.astype(np.float64)
+    # Null values are gaps in their own trace; they do not affect the others.
+    high = np.fmax.reduce(data, axis=dim_axis)
+    diffs = high - np.fmin.reduce(data, axis=dim_axis)
+    diffs = diffs[np.isfinite(diffs)]
+    excursion = np.median(diffs) if len(diffs) else 0
+    offsets = (excursion * scale) * np.arange(len(other_labels))
     # add scale factor to data
-    data_scaled = offsets[None, :] + patch.data
+    data_scaled = offsets[None, :] + data
     return offsets, data_scaled
 
 
@@ -47,7 +57,7 @@ def _format_y_axis_ticks(ax, offsets, other_axis_ticks, max_ticks=10):
     # set the offset
     ax.set_yticks(offsets, other_axis_ticks)
     min_bins = min(len(other_axis_ticks), max_ticks)
-    plt.locator_params(axis="y", nbins=min_bins)
+    ax.locator_params(axis="y", nbins=min_bins)
 
 
 @patch_function()
@@ -128,7 +138,12 @@ def wiggle(
         getattr(ax, f"set_{x}label")(_get_dim_label(patch, dim))
         # format all dims which have time types.
         if np.issubdtype(patch.get_coord(dim).dtype, np.datetime64):
-            _format_time_axis(ax, dim, x)
+            if x == "x":
+                _format_time_axis(ax, dim, x)
+            else:
+                # Positions along y are the offsets of the traces, not dates;
+                # their tick labels are already set.
+                ax.set_ylabel(string.capwords(dim))
     if show:
         plt.show()
     ax.invert_yaxis()  # invert y so its consistent with waterfall
-- 
2.43.0


From dd33d4572538a39de96795e88fddaa74f0333916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 125/134] fix: map_fiber labels the axis a coordinate is on and
 accepts integer scales

---
 dascore/viz/map_fiber.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dascore/viz/map_fiber.py b/dascore/viz/map_fiber.py
index 98bbca4..7c693f8 100644
--- a/dascore/viz/map_fiber.py
+++ b/dascore/viz/map_fiber.py
@@ -32,7 +32,7 @@ def _set_scale(im, scale, scale_type, color_coords):
     if scale_type == "relative":
         modifier = 0.5 * (np.nanmax(color_coords) - np.nanmin(color_coords))
         # only one scale parameter provided, center around mean
-    if isinstance(scale, float):
+    if isinstance(scale, float | int):
         mean = np.nanmean(color_coords)
         scale = np.array([mean - scale * modifier, mean + scale * modifier])
     im.set_clim(scale)
@@ -91,18 +91,18 @@ def map_fiber(
     >>> patch = patch.set_units(latitude="m", longitude="m")
     >>> _ = patch.viz.map_fiber("latitude", "longitude", "distance")
     """
-    dims = []
+    dims = {}
     if isinstance(x, str):
         if x not in patch.coords:
             msg = f"{x} not found in patch coordinates"
             raise ParameterError(msg)
-        dims.append(x)
+        dims["x"] = x
         x = patch.coords.get_array(x)
     if isinstance(y, str):
         if y not in patch.coords:
             msg = f"{y} not found in patch coordinates"
             raise ParameterError(msg)
-        dims.append(y)
+        dims["y"] = y
         y = patch.coords.get_array(y)
     if isinstance(color, str):
         if color not in patch.coords:
@@ -125,8 +125,8 @@ def map_fiber(
         _set_scale(im, scale, scale_type, color)
 
     # set axis labels
-    for dim, x in zip(dims, ["x", "y"]):
-        getattr(ax, f"set_{x}label")(_get_dim_label(patch, dim))
+    for axis, dim in dims.items():
+        getattr(ax, f"set_{axis}label")(_get_dim_label(patch, dim))
 
     # add color bar with title
     if cmap is not None:
-- 
2.43.0


From 66631f6c71d891aea7607f0b42b13b109953adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 126/134] fix: get_next_index doesn't change its input

Values beyond the ends of a coordinate were replaced in the array passed by the
caller, and read-only arrays (such as those of coordinates) raised.
---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 8111a9f..3e98165 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -939,7 +939,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 array[wrap_around] = array[wrap_around] + max_val + 1
         else:
             min_val, max_val = self.min(), self.max()
-            array = self._get_compatible_value(array, relative=relative)
+            # A copy is needed so the input isn't changed by clamping below.
+            array = np.array(self._get_compatible_value(array, relative=relative))
         # handle out of bounds cases
         is_gt, is_lt = array > max_val, array < min_val
         if not allow_out_of_bounds and np.any(is_gt | is_lt):
-- 
2.43.0


From c0669936283692d9f7852aadc961dcf6c5d6d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 127/134] fix: sources of correlations are labeled by their
 channels

Sources requested by sample or between two channels were labeled with the
request rather than the channel which was used, and without units.
---
 dascore/proc/correlate.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dascore/proc/correlate.py b/dascore/proc/correlate.py
index ceceda0..1002d42 100644
--- a/dascore/proc/correlate.py
+++ b/dascore/proc/correlate.py
@@ -9,7 +9,6 @@ import numpy as np
 import dascore as dc
 from dascore.constants import PatchType
 from dascore.exceptions import ParameterError
-from dascore.units import Quantity
 from dascore.utils.patch import (
     get_dim_axis_value,
     patch_function,
@@ -19,21 +18,25 @@ from dascore.utils.time import to_float
 
 def _get_source_fft(patch, dim, source, source_axis, samples):
     """
-    Get an array of coordinate sources.
+    Get an array of coordinate sources and their coordinate.
 
     This function will place the new sources in a third dimension so
     they broadcast with the original fft matrix.
     """
     # Extract an array containing just the sources
     coord_source = patch.get_coord(dim)
-    index_source = coord_source.get_next_index(source, samples=samples)
+    index_source = np.atleast_1d(coord_source.get_next_index(source, samples=samples))
     selecter = [slice(None), slice(None), None]
-    selecter[source_axis] = np.atleast_1d(index_source)
+    selecter[source_axis] = index_source
     source = patch.data[tuple(selecter)]
     # Now transpose source so source dim is list. Essentially we just
     # need to swap the source axis with the last axis.
     out = np.swapaxes(source, source_axis, -1)
-    return out
+    # Sources are labeled by the coordinate values of their channels.
+    new_coord = dc.get_coord(
+        values=coord_source.values[index_source], units=coord_source.units
+    )
+    return out, new_coord
 
 
 @patch_function(data_type="correlation")
@@ -214,14 +217,11 @@ def correlate(
         patch = padded.dft.func(padded, fft_dim, real=fft_dim if is_real else None)
     # Get the sources.
     source = patch.get_coord(dim).values if source is None else source
-    source_fft = _get_source_fft(patch, dim, source, source_axis, samples)
+    source_fft, new_coord = _get_source_fft(patch, dim, source, source_axis, samples)
     # Need to insert new axis so the arrays broadcast correctly.
     fft_patch_array = patch.data[..., None]
     fft_prod = fft_patch_array * np.conj(source_fft)
     # Create frequency domain patch with results
-    if isinstance(source, Quantity):  # labels are in the units of the coordinate
-        source = patch.get_coord(dim)._get_compatible_value(source)
-    new_coord = dc.get_coord(values=np.atleast_1d(source))
     dim_name = f"source_{dim}"
     cm = patch.coords.update(**{dim_name: (dim_name, new_coord)})
     out = patch.update(data=fft_prod, coords=cm)
-- 
2.43.0


From c7bdf4b307630997c854299d7f0c8088c9b21b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 128/134] fix: strain rates of reversed patches have positive
 gauge lengths

Also keep the units of distance in velocity_to_strain_rate_edgeless.
---
 dascore/transform/strain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dascore/transform/strain.py b/dascore/transform/strain.py
index e23bcb1..821421c 100644
--- a/dascore/transform/strain.py
+++ b/dascore/transform/strain.py
@@ -116,7 +116,7 @@ def velocity_to_strain_rate(
         patch, dim="distance", order=order, step=step_multiple // 2
     )
     new_attrs = patch.attrs.update(
-        data_type="strain_rate", gauge_length=step * step_multiple
+        data_type="strain_rate", gauge_length=abs(step) * step_multiple
     )
     # Coords are unchanged, so attrs still conform to them.
     return patch.from_parts(patch.data, patch.coords, new_attrs)
@@ -193,7 +193,8 @@ def velocity_to_strain_rate_edgeless(
     # Need to get distance values between current ones.
     dists = patch.get_array("distance")
     new_dist = (dists[step_multiple:] + dists[:-step_multiple]) / 2
-    new_coords = patch.coords.update(distance=new_dist)
+    new_coord = dc.get_coord(data=new_dist, units=coord.units)
+    new_coords = patch.coords.update(distance=new_coord)
 
     # Handle unit conversions.
     new_data_units = None
@@ -204,7 +205,7 @@ def velocity_to_strain_rate_edgeless(
 
     new_attrs = patch.attrs.update(
         data_type="strain_rate",
-        gauge_length=distance_step * step_multiple,
+        gauge_length=abs(distance_step) * step_multiple,
         data_units=new_data_units,
     )
 
-- 
2.43.0


From 18a96a9380653705ff660c02a97183e51d02c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 129/134] fix: tau_p of reversed coordinates, other time units,
 and lists

A reversed distance or time gave slant stacks of wrapped around samples, times in
other units were mixed with the attributes of the input, and lists of velocities
raised a TypeError.
---
 dascore/transform/taup.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dascore/transform/taup.py b/dascore/transform/taup.py
index 1eaa767..4658240 100644
--- a/dascore/transform/taup.py
+++ b/dascore/transform/taup.py
@@ -117,13 +117,19 @@ def tau_p(
     >>> ax = taup_patch.viz.waterfall(show=False, cbar=False)
     >>> _ = taup_patch.viz.waterfall(ax=ax)
     """
-    patch_cop = patch.convert_units(distance="m", time="s").transpose(
-        "distance", "time"
+    # Slownesses are defined by labels, so they must increase along both axes.
+    patch_cop = (
+        patch.convert_units(distance="m", time="s")
+        .sort_coords("distance", "time")
+        .transpose("distance", "time")
     )
     dist = patch_cop.get_coord("distance")
     time = patch_cop.get_coord("time", require_evenly_sampled=True)
     dt = to_float(time.step)
 
+    # Handle unit conversions if needed.
+    velocities = np.atleast_1d(convert_units(velocities, to_units="m/s"))
+
     if np.any(velocities <= 0):
         msg = "Input velocities must be positive."
         raise ParameterError(msg)
@@ -131,9 +137,6 @@ def tau_p(
     if not np.all(np.diff(velocities) > 0):
         raise ParameterError("Input velocities must be monotonically increasing.")
 
-    # Handle unit conversions if needed.
-    velocities = convert_units(velocities, to_units="m/s")
-
     # Chooses code version based on whether distance between channels
     # is uniform or not
     if dist.evenly_sampled:
@@ -145,10 +148,10 @@ def tau_p(
 
     slowness, tau_p_data = func(patch_cop.data, dist_val, dt, 1.0 / velocities)
 
-    attrs = patch.attrs.update(category="taup")
     coords = dict(slowness=slowness, time=time)
 
+    # The time of the input's attrs may not apply to the converted, sorted coord.
     tau_p_patch = patch.new(
-        data=tau_p_data, coords=coords, attrs=attrs, dims=["slowness", "time"]
-    )
+        data=tau_p_data, coords=coords, dims=["slowness", "time"]
+    ).update_attrs(category="taup")
     return tau_p_patch.set_units(slowness="s/m", time="s")
-- 
2.43.0


From 4123da92f756df130890a1b5f241bda55327695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 130/134] fix: dispersion images of numeric, reversed, and
 uneven times

Numeric times raised, reversed times were refused as beyond Nyquist, and uneven
times silently used the first interval.
---
 dascore/transform/dispersion.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dascore/transform/dispersion.py b/dascore/transform/dispersion.py
index 80e2c15..7e4bddd 100644
--- a/dascore/transform/dispersion.py
+++ b/dascore/transform/dispersion.py
@@ -10,6 +10,7 @@ import numpy.fft as nft
 from dascore.constants import PatchType
 from dascore.exceptions import ParameterError
 from dascore.utils.patch import patch_function
+from dascore.utils.time import to_float
 
 
 @patch_function(required_dims=("time", "distance"), data_type="dispersion")
@@ -84,11 +85,15 @@ def dispersion_phase_shift(
             approx_resolution=0.1,approx_freq=[5,70])
     ```
     """
-    patch_cop = patch.convert_units(distance="m").transpose("distance", "time")
+    patch_cop = (
+        patch.convert_units(distance="m", time="s")
+        .sort_coords("time")
+        .transpose("distance", "time")
+    )
     dist = patch_cop.coords.get_array("distance")
-    time = patch_cop.coords.get_array("time")
+    time = patch_cop.get_coord("time", require_evenly_sampled=True)
 
-    dt = (time[1] - time[0]) / np.timedelta64(1, "s")
+    dt = to_float(time.step)
 
     if not np.all(np.diff(phase_velocities) > 0):
         raise ParameterError(
@@ -120,7 +125,7 @@ def dispersion_phase_shift(
             raise ParameterError(msg)
 
     nchan = dist.size
-    nt = time.size
+    nt = len(time)
     assert (nchan, nt) == patch_cop.data.shape
 
     fs = 1 / dt
-- 
2.43.0


From b3839a48cd2a100c38a017c2d411dceed8f35b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:03 +0000
Subject: [PATCH 131/134] fix: coordinate requests which can't be met are
 refused

Duplicate dimensions, names which are taken, three limits for one
coordinate, and order with unknown coordinates. Also apply all limits of
a coordinate at once; the order used to depend on the hash seed.
---
 dascore/core/coordmanager.py | 24 +++++++++++++++---------
 dascore/proc/coords.py       | 22 +++++++++++++---------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 71dbdf7..fe25194 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -188,6 +188,9 @@ class CoordManager(DascoreBaseModel):
         """Validate the coordinates and dimensions."""
         coord_map, dim_map = values["coord_map"], values["dim_map"]
         dims = values["dims"]
+        if len(set(dims)) != len(dims):
+            msg = f"Dimensions must be unique, you passed {tuple(dims)}."
+            raise CoordError(msg)
         try:
             dim_shapes = {dim: coord_map[dim].shape for dim in dims}
         except KeyError:
@@ -287,11 +290,12 @@ class CoordManager(DascoreBaseModel):
             """Divide kwargs into coords to update, drop, add, etc."""
             prefix = self.dims
             suffix = ("step", "min", "max")
-            coord_updates = {
-                x: kwargs.pop(x)
-                for x in set(kwargs)
-                if _matches_prefix_suffix(x, prefixes=prefix, suffixes=suffix)
-            }
+            coord_updates = {}
+            for key in list(kwargs):
+                if _matches_prefix_suffix(key, prefixes=prefix, suffixes=suffix):
+                    coord_name, attr = key.rsplit("_", maxsplit=1)
+                    attr_updates = coord_updates.setdefault(coord_name, {})
+                    attr_updates[attr] = kwargs.pop(key)
             coords_to_drop = [i for i, v in kwargs.items() if v is None]
             # convert input to coord_map/dim_map
             coords_to_add = {i: v for i, v in kwargs.items() if v is not None}
@@ -306,11 +310,10 @@ class CoordManager(DascoreBaseModel):
         coords, _ = self.drop_coords(*(coord_to_drop + indirect_coord_drops))
         out = coords._get_dim_array_dict(keep_coord=True)
         out.update({i: v for i, v in kwargs.items() if i not in coord_to_drop})
-        # update based on keywords
-        for item, value in coord_updates.items():
-            coord_name, attr = item.split("_")
+        # update based on keywords, all those of a coordinate at once.
+        for coord_name, updates in coord_updates.items():
             new = list(out[coord_name])
-            new[1] = new[1].update(**{attr: value})
+            new[1] = new[1].update(**updates)
             out[coord_name] = tuple(new)
 
         dims = tuple(x for x in dims if x not in coord_to_drop)
@@ -951,6 +954,9 @@ class CoordManager(DascoreBaseModel):
         for old_name, new_name in kwargs.items():
             if old_name == new_name:
                 continue
+            if new_name in coord_map:
+                msg = f"Can't rename {old_name}, coordinate {new_name} already exists."
+                raise CoordError(msg)
             if old_name in dims:  # only
                 dims[dims.index(old_name)] = new_name
                 dim_map = _adjust_dim_map_to_new_dim(dim_map, old_name, new_name)
diff --git a/dascore/proc/coords.py b/dascore/proc/coords.py
index e64748c..8e60c6c 100644
--- a/dascore/proc/coords.py
+++ b/dascore/proc/coords.py
@@ -434,6 +434,17 @@ def coords_from_df(
     return out
 
 
+def _check_coords_exist(patch, names):
+    """Raise an error if any of the names is not a coordinate."""
+    if invalid_coords := set(names) - set(patch.coords.coord_map):
+        invalid_list = sorted(invalid_coords)
+        valid_list = sorted(patch.coords.coord_map)
+        msg = (
+            f"Coordinate(s) {invalid_list} not found in patch coordinates: {valid_list}"
+        )
+        raise PatchCoordinateError(msg)
+
+
 @patch_function(history=None)
 @compose_docstring(select_params=select_values_description)
 def select(
@@ -508,15 +519,7 @@ def select(
       See [`Patch.order`](`dascore.Patch.order`).
 
     """
-    # Check for and raise on invalid kwargs.
-    if invalid_coords := set(kwargs) - set(patch.coords.coord_map):
-        invalid_list = sorted(invalid_coords)
-        valid_list = sorted(patch.coords.coord_map)
-        msg = (
-            f"Coordinate(s) {invalid_list} not found in patch coordinates: {valid_list}"
-        )
-        raise PatchCoordinateError(msg)
-
+    _check_coords_exist(patch, kwargs)
     new_coords, data = patch.coords.select(
         **kwargs,
         array=patch.data,
@@ -575,6 +578,7 @@ def order(
       If there are repeated values in the requsted values or in the patch
       coordinate arrays, the data will end up being repeated as well.
     """
+    _check_coords_exist(patch, kwargs)
     new_coords, data = patch.coords.order(
         **kwargs,
         array=patch.data,
-- 
2.43.0


From 203013ed7ac952c83e2e2dab6a6882fbc2e57255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:50 +0000
Subject: [PATCH 132/134] fix: parameters without a meaning are refused

For example filters with less than one corner, unknown rolling engines,
decimation by fractions or negative factors, negative window sizes, and
chunks of null length.
---
 dascore/proc/basic.py              |  3 +++
 dascore/proc/filter.py             |  9 +++++++++
 dascore/proc/hampel.py             |  3 +++
 dascore/proc/mute.py               |  3 +++
 dascore/proc/resample.py           |  6 ++++++
 dascore/proc/rolling.py            |  3 +++
 dascore/proc/whiten.py             | 11 ++++++++---
 dascore/proc/wiener.py             |  3 +++
 dascore/transform/differentiate.py |  3 +++
 dascore/transform/dispersion.py    |  3 +++
 dascore/transform/fft.py           |  2 +-
 dascore/transform/fourier.py       |  3 +++
 dascore/transform/strain.py        |  2 +-
 dascore/utils/chunk.py             |  3 +++
 14 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index 406eb92..66e51db 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -480,6 +480,9 @@ def dropna(
     >>> # drop all distance labels that have all null values
     >>> out = patch.dropna("distance", how="all")
     """
+    if how not in ("any", "all"):
+        msg = f"how must be any or all, you passed {how}."
+        raise ParameterError(msg)
     axis = patch.get_axis(dim)
     func = np.any if how == "any" else np.all
     if include_inf:
diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index 2a7a731..4095ccb 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -80,6 +80,9 @@ def _check_sobel_args(dim, mode, cval):
 
 def _get_sos(sr, filt_min, filt_max, corners):
     """Get second order sections from sampling rate and filter bounds."""
+    if corners < 1:
+        msg = f"The number of corners must be at least one, you passed {corners}."
+        raise ParameterError(msg)
     nyquist = 0.5 * sr
     low = None if pd.isnull(filt_min) else filt_min / nyquist
     high = None if pd.isnull(filt_max) else filt_max / nyquist
@@ -209,6 +212,9 @@ def _create_size_and_axes(patch, kwargs, samples):
     for dim, axis, value in dimfo:
         coord = patch.get_coord(dim)
         window = coord.get_sample_count(value, samples=samples)
+        if window < 0:
+            msg = f"Window sizes can't be negative, you passed {dim}={value}."
+            raise ParameterError(msg)
         size[axis] = window
     return tuple(size), tuple(axes)
 
@@ -318,6 +324,9 @@ def notch_filter(patch: PatchType, q: float, **kwargs) -> PatchType:
     >>> # Apply a notch filter along distance axis to remove 5 m wavelength
     >>> filtered = pa.notch_filter(distance=5 * m, q=30)
     """
+    if not q > 0:
+        msg = f"The quality factor must be positive, you passed {q}."
+        raise ParameterError(msg)
     data = patch.data
     dinfo = get_dim_axis_value(patch, kwargs=kwargs, allow_multiple=True)
     for dim, axis, value in dinfo:
diff --git a/dascore/proc/hampel.py b/dascore/proc/hampel.py
index 8cb2034..336e215 100644
--- a/dascore/proc/hampel.py
+++ b/dascore/proc/hampel.py
@@ -186,6 +186,9 @@ def hampel_filter(
     # For now we just hardcode mode as it is probably the only one that
     # makes sense in a DAS data context.
     mode = "reflect"
+    if not kwargs:
+        msg = "hampel_filter requires the window size of at least one dimension."
+        raise ParameterError(msg)
     size = get_patch_window_size(
         patch, kwargs, samples, require_odd=True, warn_above=10, min_samples=3
     )
diff --git a/dascore/proc/mute.py b/dascore/proc/mute.py
index a26e2f8..dfeed7f 100644
--- a/dascore/proc/mute.py
+++ b/dascore/proc/mute.py
@@ -115,6 +115,9 @@ class _MuteGeometry(ABC, DascoreBaseModel):
                     out.append(0)
                 # Note: timedeltas are also numpy integers.
                 elif isinstance(val, int | np.integer) and not is_timedelta64(val):
+                    if val < 0:
+                        msg = f"Mute's smooth parameter for {dim} can't be negative."
+                        raise ParameterError(msg)
                     out.append(val)
                 elif isinstance(val, float | np.floating):
                     if not 0 <= val <= 1:
diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index 45a87af..2f50fe3 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -81,6 +81,9 @@ def decimate(
     >>> decimated_fir = patch.decimate(distance=10, filter_type='fir')
     """
     dim, axis, factor = get_dim_axis_value(patch, kwargs=kwargs)[0]
+    if int(factor) != factor or factor < 1:
+        msg = f"The decimation factor must be a positive integer, not {factor}."
+        raise ParameterError(msg)
     coords, slices = patch.coords.decimate(**{dim: int(factor)})
     # Apply scipy.signal.decimate and get new coords
     if filter_type:
@@ -260,6 +263,9 @@ def resample(
         new_len = old_len * (step / new_step)
     else:
         new_step, new_len = None, value
+        if int(value) != value:
+            msg = f"The number of samples must be an integer, you passed {value}."
+            raise ParameterError(msg)
     num = int(np.round(new_len))
     if num < 1:
         msg = f"resample along {dim} to {value} results in less than one sample."
diff --git a/dascore/proc/rolling.py b/dascore/proc/rolling.py
index 2340bcb..38437ff 100644
--- a/dascore/proc/rolling.py
+++ b/dascore/proc/rolling.py
@@ -399,6 +399,9 @@ def rolling(
     def _get_engine(step, engine, patch):
         """Get the engine."""
         engines = {"numpy": _NumpyPatchRoller, "pandas": _PandasPatchRoller}
+        if engine is not None and engine not in engines:
+            msg = f"Unknown rolling engine {engine}, use one of {tuple(engines)}."
+            raise ParameterError(msg)
         if cls := engines.get(engine):
             return cls
         # Pandas can only handle up to two dimensions.
diff --git a/dascore/proc/whiten.py b/dascore/proc/whiten.py
index 2bb9f22..493844d 100644
--- a/dascore/proc/whiten.py
+++ b/dascore/proc/whiten.py
@@ -52,12 +52,16 @@ def _get_amp_envelope(fft_patch, axis, window_len, water_level):
     return smoothed_amp
 
 
-def _check_smooth(fft_coord, smooth_size, water_level):
-    """Check the smooth size."""
+def _check_water_level(water_level):
+    """Check the water level."""
     if water_level is not None:
         if not isinstance(water_level, float) or water_level < 0 or water_level > 1:
             msg = "water_level must be a float between 0 and 1."
             raise ParameterError(msg)
+
+
+def _check_smooth(fft_coord, smooth_size):
+    """Check the smooth size."""
     if smooth_size <= 0:
         msg = "Frequency smoothing size must be positive"
         raise ParameterError(msg)
@@ -144,10 +148,11 @@ def whiten(
     input_patch_fft = fft_patch is patch  # if input patch had fft
     fft_coord = fft_patch.get_coord(fft_dim)
     # Get amplitude spectra if smoothing, otherwise use ones.
+    _check_water_level(water_level)
     if smooth_size is None:
         amp = np.ones_like(fft_patch.data)
     else:
-        _check_smooth(fft_coord, smooth_size, water_level)
+        _check_smooth(fft_coord, smooth_size)
         axis = fft_patch.get_axis(fft_dim)
         window_len = fft_coord.get_sample_count(smooth_size, enforce_lt_coord=True)
         amp = _get_amp_envelope(fft_patch, axis, window_len, water_level)
diff --git a/dascore/proc/wiener.py b/dascore/proc/wiener.py
index 113ef7a..b1f43be 100644
--- a/dascore/proc/wiener.py
+++ b/dascore/proc/wiener.py
@@ -80,6 +80,9 @@ def wiener_filter(
         )
         raise ParameterError(msg)
 
+    if noise is not None and not noise >= 0:
+        msg = f"The noise power can't be negative, you passed {noise}."
+        raise ParameterError(msg)
     size = get_patch_window_size(patch, kwargs, samples, min_samples=1)
     # The local variance, calculated with the type of the data, overflows for ints.
     data = patch.data
diff --git a/dascore/transform/differentiate.py b/dascore/transform/differentiate.py
index 1fd2918..c72345f 100644
--- a/dascore/transform/differentiate.py
+++ b/dascore/transform/differentiate.py
@@ -141,6 +141,9 @@ def differentiate(
     >>> # or rows used for estimating the derivative.
     >>> patch_diff_3 = patch.differentiate(dim="distance", step=3, order=2)
     """
+    if step < 1:
+        msg = f"The step of differentiate must be at least one, you passed {step}."
+        raise ParameterError(msg)
     dims = iterate(dim if dim is not None else patch.dims)
     dx_or_spacing, axes = _get_dx_or_spacing_and_axes(patch, dims)
     if step > 1:
diff --git a/dascore/transform/dispersion.py b/dascore/transform/dispersion.py
index 7e4bddd..5d7fc9c 100644
--- a/dascore/transform/dispersion.py
+++ b/dascore/transform/dispersion.py
@@ -110,6 +110,9 @@ def dispersion_phase_shift(
         approx_min_freq = 0
         approx_max_freq = 0.5 / dt
     else:
+        if len(approx_freq) != 2:
+            msg = f"approx_freq must have two values, you passed {approx_freq}."
+            raise ParameterError(msg)
         approx_min_freq = approx_freq[0]
         approx_max_freq = approx_freq[1]
         if approx_min_freq <= 0 or approx_max_freq <= 0:
diff --git a/dascore/transform/fft.py b/dascore/transform/fft.py
index c742ea6..2d2c8f8 100644
--- a/dascore/transform/fft.py
+++ b/dascore/transform/fft.py
@@ -46,7 +46,7 @@ def rfft(patch: PatchType, dim="time") -> PatchType:
 
     ft = FourierTransformatter()
     data = patch.data
-    step = to_float(patch.attrs[f"{dim}_step"])
+    step = to_float(patch.get_coord(dim, require_evenly_sampled=True).step)
     freqs = np.fft.rfftfreq(data.shape[axis], step)
     new_data = np.fft.rfft(data, axis=axis)
     # get new dims and data units
diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index cabac52..3121290 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -297,6 +297,9 @@ def dft(
     dims = list(iterate(dim if dim is not None else patch.dims))
     patch.check_coords(coords=dims)
     real = dims[-1] if real is True else real  # if true grab last dim
+    if isinstance(real, str) and real not in dims:
+        msg = f"real must be one of the dimensions {dims}, you passed {real}."
+        raise ParameterError(msg)
     dims = _get_untransformed_dims(patch, dims)
     real = real if real in dims else None  # may need to reset real
     if not dims:  # no transformation needed.
diff --git a/dascore/transform/strain.py b/dascore/transform/strain.py
index 821421c..e625f08 100644
--- a/dascore/transform/strain.py
+++ b/dascore/transform/strain.py
@@ -247,7 +247,7 @@ def radians_to_strain(
     # First get gauge length, using gl passed into function or attached to attrs.
     gl = getattr(patch.attrs, "gauge_length", None)
     gauge = convert_units(gauge_length if gauge_length is not None else gl, "m")
-    if gauge is None or gauge <= 0:
+    if gauge is None or not gauge > 0:
         msg = (
             "Gauge length must be non-zero positive and provided "
             "or defined in patch attrs."
diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index a52cf7e..9c16710 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -197,6 +197,9 @@ class ChunkManager:
             raise ParameterError(msg)
         ((key, value),) = kwargs.items()
         value = None if value is ... else value
+        if value is not None and pd.isnull(value):
+            msg = f"Can't chunk {key} by the null value {value}."
+            raise ParameterError(msg)
         return key, value
 
     def _validate_chunker(self):
-- 
2.43.0


From b277b33128320ee1133b374992bab930c311405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:08 +0000
Subject: [PATCH 133/134] fix: units of datetime coordinates have to exist and
 convert to time

---
 dascore/core/coordmanager.py |  4 +++-
 dascore/core/coords.py       | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index fe25194..03ddaf9 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -67,6 +67,7 @@ from dascore.exceptions import (
     ParameterError,
     PatchBroadcastError,
 )
+from dascore.units import get_quantity
 from dascore.utils.attrs import separate_coord_info
 from dascore.utils.docs import compose_docstring
 from dascore.utils.mapping import FrozenDict
@@ -875,7 +876,8 @@ class CoordManager(DascoreBaseModel):
         """Set the units of the coordinate manager."""
         new_coords = dict(self.coord_map)
         for name, units in kwargs.items():
-            new_coords[name] = new_coords[name].set_units(units)
+            # Datetimes always have units of seconds, so check the units exist.
+            new_coords[name] = new_coords[name].set_units(get_quantity(units))
         return self.new(coord_map=new_coords)
 
     def convert_units(self, **kwargs):
diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 3e98165..976bfbd 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -23,7 +23,7 @@ from typing_extensions import Self
 import dascore as dc
 from dascore.compat import array, is_array
 from dascore.constants import _AGG_FUNCS, DIM_REDUCE_DOCS, dascore_styles
-from dascore.exceptions import CoordError, ParameterError
+from dascore.exceptions import CoordError, ParameterError, UnitError
 from dascore.units import (
     Quantity,
     Unit,
@@ -249,6 +249,14 @@ def get_compatible_values(val, dtype):
     return val
 
 
+def _check_time_units(units):
+    """Raise an error if units of a datetime or timedelta aren't those of time."""
+    quantity = get_quantity(units)
+    if quantity is not None and not quantity.check("[time]"):
+        msg = f"Datetimes and timedeltas can't be converted to units of {units}."
+        raise UnitError(msg)
+
+
 class BaseCoord(DascoreBaseModel, abc.ABC):
     """
     Coordinate interface.
@@ -1317,6 +1325,7 @@ class CoordRange(BaseCoord):
         """Convert units, or set units if none exist."""
         # cant convert time units
         if dtype_time_like(self.dtype):
+            _check_time_units(units)
             return self
         if self.units is None:
             return self.set_units(units)
@@ -1515,6 +1524,8 @@ class CoordArray(BaseCoord):
         """Convert units, or set units if none exist."""
         is_time = np.issubdtype(self.dtype, np.datetime64)
         is_time_delta = np.issubdtype(self.dtype, np.timedelta64)
+        if is_time or is_time_delta:
+            _check_time_units(units)
         if self.units is None or is_time or is_time_delta:
             return self.set_units(units)
         values = convert_units(self.values, units, self.units)
-- 
2.43.0


From 66d35feaa4dd7e0621467e724de1984b32896031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:26 +0000
Subject: [PATCH 134/134] fix: spectrogram of patches with coordinates attached
 to the transformed dimension

---
 dascore/transform/spectro.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/spectro.py b/dascore/transform/spectro.py
index ea9bc70..7083ff8 100644
--- a/dascore/transform/spectro.py
+++ b/dascore/transform/spectro.py
@@ -98,7 +98,11 @@ def spectrogram(patch: PatchType, dim: str = "time", **kwargs) -> PatchType:
     coord = patch.get_coord(dim)
     dxs, axes = _get_dx_or_spacing_and_axes(patch, dim, require_evenly_spaced=True)
     new_coord_name = FourierTransformatter().rename_dims(dim)[0]
-    out_coords = patch.coords._get_dim_array_dict()
+    # Coordinates attached to the transformed dimension no longer fit it.
+    attached = [
+        x for x, dims in patch.coords.dim_map.items() if dim in dims and x != dim
+    ]
+    out_coords = patch.coords.drop_coords(*attached)[0]._get_dim_array_dict()
     # returns frequency, new values for original dimension (eg time) and spectrogram
     freqs, original, spec = scipy_spectrogram(
         patch.data,
-- 
2.43.0

