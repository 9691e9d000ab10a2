From ec1dad7ed648af21aaccb02ee1aa372f5ae60127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 01/33] fix: honour axis=0 instead of treating it as the
 default axis

---
 rigid_body_motion/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8d0abfe..e1e0b7c 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -395,7 +395,7 @@ def _maybe_unpack_dataarray(
     if not is_dataarray(arr):
         if dim is not None:
             raise ValueError("dim argument specified without DataArray input")
-        axis = axis or -1
+        axis = -1 if axis is None else axis
         time_axis = time_axis or 0
         time_dim = None
         coords = None
@@ -410,7 +410,7 @@ def _maybe_unpack_dataarray(
         elif dim is not None:
             axis = arr.dims.index(dim)
         else:
-            axis = axis or -1
+            axis = -1 if axis is None else axis
             dim = str(arr.dims[axis])
         if isinstance(timestamps, str):
             # TODO convert datetimeindex?
-- 
2.43.0


From aeb2363c0527c4b1d40c79428e061d68b57f9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 02/33] fix: transform along the requested axes for every array
 layout

Swapping the time axis to the front moved the spatial axis without
updating it, and the axes were swapped back even when no timestamps were
given. Translations were added and arrays resampled along the last axis
whatever the spatial axis.
---
 rigid_body_motion/reference_frames.py | 46 +++++++++++++++++----------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6306901..297c57b 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -285,10 +285,21 @@ class ReferenceFrame(NodeMixin):
                     f"Axis {time_axis} of the array must have the same length "
                     f"as the timestamps"
                 )
-            # TODO this should be done somewhere else
-            arr = np.swapaxes(arr, 0, time_axis)
 
-        return arr, timestamps
+        # TODO this should be done somewhere else
+        src, dst = cls._resolve_axes(arr.ndim, axis, timestamps, time_axis)
+
+        return np.moveaxis(arr, src, dst), timestamps
+
+    @staticmethod
+    def _resolve_axes(ndim, axis, timestamps, time_axis):
+        """Original and internal (time first, space last) array axes."""
+        axis = axis % ndim - ndim  # valid even if a time axis is prepended
+
+        if timestamps is None:
+            return (axis,), (-1,)
+        else:
+            return (time_axis, axis), (0, -1)
 
     @classmethod
     def _expand_singleton_axes(cls, t_or_r, ndim):
@@ -631,17 +642,18 @@ class ReferenceFrame(NodeMixin):
         ts: array_like, shape (n_timestamps,) or None
             The timestamps after the transformation.
         """
+        ndim = np.ndim(arr)
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        src, dst = self._resolve_axes(ndim, axis, arr_ts, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        # undo axis moves
+        arr = np.moveaxis(arr, dst, src)
 
         if not return_timestamps:
             return arr
@@ -692,19 +704,20 @@ class ReferenceFrame(NodeMixin):
         ts: array_like, shape (n_timestamps,) or None
             The timestamps after the transformation.
         """
+        ndim = np.ndim(arr)
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        src, dst = self._resolve_axes(ndim, axis, arr_ts, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         t = self._expand_singleton_axes(t, arr.ndim)
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
         arr = arr + np.array(t)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        # undo axis moves
+        arr = np.moveaxis(arr, dst, src)
 
         if not return_timestamps:
             return arr
@@ -756,19 +769,18 @@ class ReferenceFrame(NodeMixin):
         ts: array_like, shape (n_timestamps,) or None
             The timestamps after the transformation.
         """
+        ndim = np.ndim(arr)
         arr, arr_ts = self._validate_input(arr, axis, 4, timestamps, time_axis)
+        src, dst = self._resolve_axes(ndim, axis, arr_ts, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = np.swapaxes(arr, axis, -1)
-        arr = as_quat_array(r) * as_quat_array(arr)
-        arr = np.swapaxes(as_float_array(arr), -1, axis)
+        arr = as_float_array(as_quat_array(r) * as_quat_array(arr))
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        # undo axis moves
+        arr = np.moveaxis(arr, dst, src)
 
         if not return_timestamps:
             return arr
-- 
2.43.0


From 17eacf76e457c7af757d43eb9b43b69b223d2fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 03/33] fix: rotate vectors correctly by quaternions of any
 length

---
 rigid_body_motion/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1cd7a42..aa063cd 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -256,7 +256,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     q = as_float_array(q)
     r = q[..., 1:]
     s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.linalg.norm(q, axis=-1, keepdims=True), -1, axis)
+    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From 8afdf689f7db74a97cd4290323e7cbcf6a0b3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 04/33] fix: pair quaternions and vectors for every placement
 of their axes

---
 rigid_body_motion/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index aa063cd..b522575 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -231,7 +231,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     v = np.asarray(v)
 
     if q.dtype != quaternion:
-        q = as_quat_array(np.swapaxes(q, qaxis, -1))
+        q = as_quat_array(np.moveaxis(q, qaxis, -1))
 
     if not one_to_one or q.ndim == 0:
         return quat_rv(q, v, axis=axis)
@@ -255,8 +255,8 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     # compute rotation
     q = as_float_array(q)
     r = q[..., 1:]
-    s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
+    s = np.moveaxis(q[..., :1], -1, axis)
+    m = np.moveaxis(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From c3ccdaf0e06ec32386fb7367b9b09f45d91efb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 05/33] fix: return the dominant eigenvector as quaternion mean

---
 rigid_body_motion/utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index b522575..bf57852 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -122,11 +122,8 @@ def qmean(q, axis=None, qaxis=-1):
     A = np.mean(q * qt, axis=axis)
 
     # compute largest eigenvector of A
-    l, v = np.linalg.eig(A)
-    idx = np.unravel_index(l.argsort()[..., ::-1], l.shape) + (0,)
-    v = v[idx]
-
-    qm = np.real(v)
+    l, v = np.linalg.eigh(A)
+    qm = v[..., -1]
 
     if was_quaternion:
         return as_quat_array(qm)
-- 
2.43.0


From 8c97dc627fb892567b74e18612c258b9c85905d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 06/33] fix: reject Euler angle orders with surplus characters

---
 rigid_body_motion/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index bf57852..f8bed40 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -362,6 +362,8 @@ def from_euler_angles(
         rotors[order.index("r")] = roll
         rotors[order.index("p")] = pitch
         rotors[order.index("y")] = yaw
+        if len(order) != len(rotors):
+            raise ValueError
     except (ValueError, IndexError):
         raise ValueError(
             f"order must be a permutation of 'r', 'p' and 'y', got {order}"
-- 
2.43.0


From 1f16181b54c2dac4eef248662aac432a4423d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 07/33] fix: convert coordinates along the first axis of plain
 arrays

---
 rigid_body_motion/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index e1e0b7c..30a4a5d 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -397,6 +397,7 @@ def _maybe_unpack_dataarray(
             raise ValueError("dim argument specified without DataArray input")
         axis = -1 if axis is None else axis
         time_axis = time_axis or 0
+        timestamps = None if timestamps is False else timestamps
         time_dim = None
         coords = None
         dims = None
-- 
2.43.0


From d6326270d74fe835dc3f5ac2c4207488af875b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 08/33] fix: convert the origin to spherical coordinates
 without NaN

---
 rigid_body_motion/coordinate_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 373da27..5b28d5c 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -82,7 +82,8 @@ def cartesian_to_spherical(arr, axis=-1):
         )
 
     r = np.linalg.norm(arr, axis=axis)
-    theta = np.arccos(np.take(arr, 2, axis=axis) / r)
+    # r is 0 only at the origin
+    theta = np.arccos(np.take(arr, 2, axis=axis) / np.where(r == 0.0, 1.0, r))
     phi = np.arctan2(np.take(arr, 1, axis=axis), np.take(arr, 0, axis=axis))
     return np.stack((r, theta, phi), axis=axis)
 
-- 
2.43.0


From 1bb7b6bec05e8cf272d6c3157eb333975bbce747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 09/33] fix: return a proper rotation from best_fit_rotation
 for reflected sets

---
 rigid_body_motion/estimators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index c886d00..4cc7d58 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -324,6 +324,11 @@ def best_fit_rotation(v1, v2, dim=None, axis=None):
     U, S, Vt = np.linalg.svd(H)
     R = np.dot(Vt.T, U.T)
 
+    # special reflection case
+    if np.linalg.det(R) < 0:
+        Vt[2, :] *= -1
+        R = np.dot(Vt.T, U.T)
+
     # rotation as quaternion
     rotation = as_float_array(from_rotation_matrix(R))
 
-- 
2.43.0


From 221d39499a2af6d5b58792d710fe6d4cf4668a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 10/33] fix: treat calendar timestamps of any resolution alike

---
 rigid_body_motion/core.py             | 12 ++++++++++--
 rigid_body_motion/reference_frames.py |  5 +++--
 rigid_body_motion/utils.py            |  6 +++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 30a4a5d..2948f94 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -353,6 +353,14 @@ def _resolve_rf(rf):
         )
 
 
+def _to_nanoseconds(timestamps):
+    """Convert calendar timestamps of any resolution to nanoseconds."""
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        return timestamps.astype("datetime64[ns]")
+    else:
+        return timestamps
+
+
 def _replace_dim(coords, dims, axis, into, dimensionality):
     """Replace the spatial dimension."""
     # TODO can we improve this with assign_coords / swap_dims?
@@ -737,7 +745,7 @@ def _estimate_angular_velocity(
 ):
     """Estimate angular velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _to_nanoseconds(timestamps).astype(float) / 1e9
 
     axis = axis % rotation.ndim
     time_axis = time_axis % rotation.ndim
@@ -800,7 +808,7 @@ def _estimate_linear_velocity(
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _to_nanoseconds(timestamps).astype(float) / 1e9
 
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 297c57b..4e4a15e 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -9,6 +9,7 @@ from rigid_body_motion.core import (
     _estimate_angular_velocity,
     _estimate_linear_velocity,
     _resolve_rf,
+    _to_nanoseconds,
 )
 from rigid_body_motion.utils import qinv, rotate_vectors
 
@@ -217,7 +218,7 @@ class ReferenceFrame(NodeMixin):
     def _init_arrays(translation, rotation, timestamps, inverse):
         """Initialize translation, rotation and timestamp arrays."""
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _to_nanoseconds(np.asarray(timestamps))
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional.")
             t_shape = (len(timestamps), 3)
@@ -277,7 +278,7 @@ class ReferenceFrame(NodeMixin):
             )
 
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _to_nanoseconds(np.asarray(timestamps))
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional")
             if arr.shape[time_axis] != len(timestamps):
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index f8bed40..e45ad72 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -14,7 +14,7 @@ from quaternion import (
 from quaternion import rotate_vectors as quat_rv
 from quaternion import squad
 
-from rigid_body_motion.core import _resolve_axis
+from rigid_body_motion.core import _resolve_axis, _to_nanoseconds
 
 
 def qinv(q, qaxis=-1):
@@ -161,8 +161,8 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
     """
     # TODO xarray support
     axis = axis % q.ndim
-    t_in = np.array(t_in).astype(float)
-    t_out = np.array(t_out).astype(float)
+    t_in = _to_nanoseconds(np.array(t_in)).astype(float)
+    t_out = _to_nanoseconds(np.array(t_out)).astype(float)
 
     if q.dtype != quaternion:
         qaxis = qaxis % q.ndim
-- 
2.43.0


From 73f9cb7b55554dc8dd8044a239e1531da1a0236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 11/33] fix: suppress velocity outliers along the given axes

---
 rigid_body_motion/core.py       | 13 ++++++++++---
 rigid_body_motion/estimators.py |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 2948f94..76570d2 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -804,7 +804,12 @@ def _estimate_angular_velocity(
 
 
 def _estimate_linear_velocity(
-    translation, timestamps, time_axis=0, outlier_thresh=None, cutoff=None
+    translation,
+    timestamps,
+    axis=-1,
+    time_axis=0,
+    outlier_thresh=None,
+    cutoff=None,
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
@@ -813,11 +818,13 @@ def _estimate_linear_velocity(
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
     if outlier_thresh is not None:
-        dt = np.linalg.norm(np.diff(translation, n=2, axis=time_axis), axis=1)
+        dt = np.linalg.norm(
+            np.diff(translation, n=2, axis=time_axis), axis=axis
+        )
         dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
         linear = interp1d(
             timestamps[dt <= outlier_thresh],
-            linear[dt <= outlier_thresh],
+            np.compress(dt <= outlier_thresh, linear, axis=time_axis),
             axis=time_axis,
             bounds_error=False,
         )(timestamps)
diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 4cc7d58..dda2481 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -132,6 +132,7 @@ def estimate_linear_velocity(
     linear = _estimate_linear_velocity(
         arr,
         timestamps,
+        axis=axis,
         time_axis=time_axis,
         outlier_thresh=outlier_thresh,
         cutoff=cutoff,
-- 
2.43.0


From 4152ed871dd00b46ac0ae5dd18e6d342decaf2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 12/33] fix: transform velocities with any axis layout and
 extra dimensions

---
 rigid_body_motion/reference_frames.py | 35 ++++++++++++++++-----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 4e4a15e..57420ae 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -884,19 +884,22 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        # time first, space last
+        ndim = np.ndim(arr)
+        arr, ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        src, dst = self._resolve_axes(ndim, axis, ts, time_axis)
+
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=ts, return_timestamps=True,
         )
 
         arr, angular, ts_out = self._match_arrays(
             [(arr, ts), (angular, angular_ts)]
         )
-        arr += angular
+        arr = arr + self._expand_singleton_axes(angular, arr.ndim)
+
+        # undo axis moves
+        arr = np.moveaxis(arr, dst, src)
 
         if return_timestamps:
             return arr, ts_out
@@ -1028,13 +1031,13 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        # time first, space last
+        ndim = np.ndim(arr)
+        arr, ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        src, dst = self._resolve_axes(ndim, axis, ts, time_axis)
+
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=ts, return_timestamps=True,
         )
         translation, translation_ts = self.transform_vectors(
             translation,
@@ -1051,7 +1054,11 @@ class ReferenceFrame(NodeMixin):
                 (translation, translation_ts),
             ]
         )
-        arr = arr + linear + np.cross(angular, translation)
+        linear = linear + np.cross(angular, translation)
+        arr = arr + self._expand_singleton_axes(linear, arr.ndim)
+
+        # undo axis moves
+        arr = np.moveaxis(arr, dst, src)
 
         if return_timestamps:
             return arr, ts_out
-- 
2.43.0


From 391faca72493afb3bc8bd634ce2c4e737547ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 13/33] fix: estimate rotations from labelled vectors in any
 dimension order

Vectors have no timestamps, so a labelled array whose first dimension is
the spatial one, or has no coordinate, must not be refused.
---
 rigid_body_motion/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index dda2481..2fba8e2 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -20,7 +20,7 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     v1, axis, _, _, _, _, coords, *_ = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None)
+    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None, False)
 
     if v1.shape[axis] != 3 or v2.shape[axis] != 3:
         raise ValueError(
@@ -263,7 +263,7 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
         The quaternion representation of the shortest-arc rotation.
     """
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
-        v1, dim, axis, None
+        v1, dim, axis, None, False
     )
     v1 = np.asarray(v1)
     v2 = np.asarray(v2)
-- 
2.43.0


From eeb75ee78736e5ac94858fa3a43f2142c03ea52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:01 +0000
Subject: [PATCH 14/33] fix: keep the parent of a frame that is registered
 again

Updating the registry entry of a frame with the frame itself detached it
from its parent.
---
 rigid_body_motion/reference_frames.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 57420ae..6dc4419 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -23,7 +23,8 @@ def _register(rf, update=False):
     if rf.name in _registry:
         if update:
             # TODO keep children?
-            _registry[rf.name].parent = None
+            if _registry[rf.name] is not rf:
+                _registry[rf.name].parent = None
         else:
             raise ValueError(
                 f"Reference frame with name {rf.name} is already registered. "
-- 
2.43.0


From d6bb81761dc7a1035f425895fe115023037ff0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 15/33] fix: leave no trace of a refused frame in its parent's
 tree

---
 rigid_body_motion/reference_frames.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6dc4419..be8a882 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -114,7 +114,11 @@ def register_frame(
         inverse=inverse,
         discrete=discrete,
     )
-    _register(rf, update=update)
+    try:
+        _register(rf, update=update)
+    except ValueError:
+        rf.parent = None  # leave no trace in the tree of the parent
+        raise
 
 
 def deregister_frame(name):
@@ -186,14 +190,13 @@ class ReferenceFrame(NodeMixin):
         self.name = name
 
         if parent is not None:
-            self.parent = _resolve_rf(parent)
+            parent = _resolve_rf(parent)
             (
                 self.translation,
                 self.rotation,
                 self.timestamps,
             ) = self._init_arrays(translation, rotation, timestamps, inverse)
         else:
-            self.parent = None
             self._verify_root(translation, rotation, timestamps)
             self.translation, self.rotation, self.timestamps = None, None, None
 
@@ -202,6 +205,9 @@ class ReferenceFrame(NodeMixin):
         else:
             self.discrete = discrete
 
+        # attach to the tree once all arguments are known to be valid
+        self.parent = parent
+
     def __del__(self):
         """Destructor."""
         if self.name in _registry and _registry[self.name] is self:
-- 
2.43.0


From a1e52de3c7fe62c2cfabe0d9b4f7b1bac740c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 16/33] fix: sub-sample path markers to the point limit, allow
 static frames

Fewer samples than the limit, arrow markers and whole-number scales failed.
---
 rigid_body_motion/ros/visualization.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index a9f65d9..626592a 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -63,10 +63,10 @@ def get_marker(
 
     marker = Marker()
 
-    marker.type = marker_type or Marker.LINE_STRIP
+    marker.type = Marker.LINE_STRIP if marker_type is None else marker_type
     marker.header.frame_id = frame_id
 
-    if isinstance(scale, float):
+    if isinstance(scale, (int, float)):
         marker.scale = Vector3(scale, scale, scale)
     else:
         marker.scale = Vector3(*scale)
@@ -208,8 +208,10 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
         )
-        show_every = self.translation.shape[0] // max_points
-        marker.points = [Point(*row) for row in self.translation[::show_every]]
+        # static transforms have a single translation
+        points = self.translation.reshape(-1, 3)
+        show_every = -(-points.shape[0] // max_points)
+        marker.points = [Point(*row) for row in points[::show_every]]
 
         topic = topic or f"/{self.frame.name}/path"
 
-- 
2.43.0


From bb083195226d71e94294af7dc01a840949cb00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 17/33] fix: export frames with numeric timestamps to ROS with
 their times

---
 rigid_body_motion/ros/transformer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index c18b13b..691ea4e 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -7,6 +7,14 @@ from rigid_body_motion.core import _resolve_rf
 from rigid_body_motion.reference_frames import ReferenceFrame
 
 
+def _to_seconds(timestamps):
+    """Convert calendar timestamps to seconds since the epoch."""
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        return timestamps.astype("datetime64[ns]").astype(float) / 1e9
+    else:
+        return timestamps
+
+
 class Transformer:
     """Wrapper class for tf2_ros.Buffer.
 
@@ -48,13 +56,12 @@ class Transformer:
         root = reference_frame.root
 
         # get the first and last timestamps for all moving reference frames
-        # TODO float timestamps
         t_start_end = list(
             zip(
                 *[
                     (
-                        node.timestamps[0].astype(float) / 1e9,
-                        node.timestamps[-1].astype(float) / 1e9,
+                        _to_seconds(node.timestamps)[0],
+                        _to_seconds(node.timestamps)[-1],
                     )
                     for node in PreOrderIter(root)
                     if node.timestamps is not None
@@ -108,7 +115,7 @@ class Transformer:
         for translation, rotation, timestamp in zip(
             reference_frame.translation,
             reference_frame.rotation,
-            reference_frame.timestamps,
+            _to_seconds(reference_frame.timestamps),
         ):
             self._buffer.set_transform(
                 make_transform_msg(
@@ -116,7 +123,7 @@ class Transformer:
                     rotation,
                     reference_frame.parent.name,
                     reference_frame.name,
-                    timestamp.astype(float) / 1e9,
+                    timestamp,
                 ),
                 "default_authority",
             )
-- 
2.43.0


From 23bba6fc80dab33ddf7ccacd12ef595c5afe2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 18/33] fix: broadcast the requested sample of a reference
 frame

Index 0 was replaced by the current one, static twists and numeric
timestamps failed, and twists had no time.
---
 rigid_body_motion/ros/transformer.py | 32 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 691ea4e..d9597ee 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -410,7 +410,8 @@ class ReferenceFrameTransformBroadcaster:
                 represent_in=self.frame,
                 cutoff=twist_cutoff,
                 outlier_thresh=twist_outlier_thresh,
-            )
+                allow_static=True,
+            )[:2]
             self.twist_publisher = rospy.Publisher(
                 f"/{self.frame.name}/twist",
                 TwistStamped,
@@ -459,9 +460,14 @@ class ReferenceFrameTransformBroadcaster:
                     self.rotation,
                     self.base.name,
                 )
+            if self.twist_publisher is not None:
+                twist = make_twist_msg(
+                    self.linear, self.angular, self.frame.name
+                )
         else:
-            idx = idx or self.idx
-            ts = self.timestamps.values[idx].astype(float) / 1e9
+            if idx is None:
+                idx = self.idx
+            ts = _to_seconds(self.timestamps.values)[idx]
             transform = make_transform_msg(
                 self.translation[idx],
                 self.rotation[idx],
@@ -476,6 +482,10 @@ class ReferenceFrameTransformBroadcaster:
                     self.base.name,
                     ts,
                 )
+            if self.twist_publisher is not None:
+                twist = make_twist_msg(
+                    self.linear[idx], self.angular[idx], self.frame.name, ts
+                )
 
         self.broadcaster.sendTransform(transform)
 
@@ -483,11 +493,7 @@ class ReferenceFrameTransformBroadcaster:
             self.pose_publisher.publish(pose)
 
         if self.twist_publisher is not None:
-            self.twist_publisher.publish(
-                make_twist_msg(
-                    self.linear[idx], self.angular[idx], self.frame.name
-                )
-            )
+            self.twist_publisher.publish(twist)
 
     def handle_incoming_msg(self, msg):
         """Publish on incoming message."""
@@ -497,11 +503,11 @@ class ReferenceFrameTransformBroadcaster:
         for transform in msg.transforms:
             if transform.child_frame_id == self.subscribe_to_frame:
                 if self.timestamps is not None:
-                    ts = pd.to_datetime(
-                        rospy.Time.to_sec(transform.header.stamp), unit="s"
-                    )
-                    idx = self.timestamps.get_loc(ts, method="nearest")
-                    self.publish(idx)
+                    ts = rospy.Time.to_sec(transform.header.stamp)
+                    if isinstance(self.timestamps, pd.DatetimeIndex):
+                        ts = pd.to_datetime(ts, unit="s")
+                    idx = self.timestamps.get_indexer([ts], method="nearest")
+                    self.publish(idx[0])
                 else:
                     self.publish()
 
-- 
2.43.0


From 012bc33405a64ffc3b5534653265d4d4e623f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 19/33] fix: use the transform and data of a single timestamp

Interpolating a single sample failed or gave NaN.
---
 rigid_body_motion/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 76570d2..55ab9cd 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -55,7 +55,7 @@ class TransformMatcher:
             else:
                 translation = np.tile(frame.translation, (len(timestamps), 1))
                 rotation = np.tile(frame.rotation, (len(timestamps), 1))
-        elif frame.discrete:
+        elif frame.discrete or len(frame.timestamps) == 1:
             translation = np.tile(frame.translation[0], (len(timestamps), 1))
             for t, ts in zip(frame.translation, frame.timestamps):
                 translation[timestamps >= ts, :] = t
@@ -88,6 +88,9 @@ class TransformMatcher:
                 return array.data
             else:
                 return np.tile(array.data, (len(timestamps), 1))
+        elif len(array.timestamps) == 1:
+            # nothing to interpolate, at most this timestamp is requested
+            return np.repeat(array.data, len(timestamps), axis=0)
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-- 
2.43.0


From cc03f6bf1722b5e0bd5bffb4aed75f56945c8116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 20/33] fix: move the playback position by the buttons within
 the recording

---
 rigid_body_motion/ros/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 2c3f8ce..1d8f48e 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -86,10 +86,13 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
     from IPython.core.display import display
     from ipywidgets import widgets
 
+    from .transformer import _to_seconds
+
     if timestamps is None:
-        timestamps = np.asarray(publisher.timestamps)
+        timestamps = publisher.timestamps
+    timestamps = np.asarray(timestamps)
 
-    interval = np.mean(np.diff(timestamps.astype(float) / 1e6)) / speed
+    interval = np.mean(np.diff(_to_seconds(timestamps))) * 1e3 / speed
 
     # position bar
     s_idx = widgets.IntSlider(
@@ -98,7 +101,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # forward button
     def button_plus(name):
-        s_idx.value += skip or step if s_idx.value < s_idx.max else 0
+        s_idx.value = min(s_idx.value + (skip or step), s_idx.max)
 
     forward = widgets.Button(
         description="►►", layout=widgets.Layout(width="50px")
@@ -107,7 +110,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # backward button
     def button_minus(name):
-        s_idx.value -= skip or step if s_idx.value < s_idx.max else 0
+        s_idx.value = max(s_idx.value - (skip or step), s_idx.min)
 
     backward = widgets.Button(
         description="◄◄", layout=widgets.Layout(width="50px")
-- 
2.43.0


From 063bdfe6fa4d11a3b3445547400b12afa3ab94ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 21/33] fix: set the z limits when a plotted frame extends them

---
 rigid_body_motion/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index 86abb46..c805741 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -80,7 +80,7 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     ]
     ax.set_xlim3d(x_lim_new)
     ax.set_ylim3d(y_lim_new)
-    ax.set_ylim3d(z_lim_new)
+    ax.set_zlim3d(z_lim_new)
 
     return [x_arrow, y_arrow, z_arrow]
 
-- 
2.43.0


From 9f5b260260835452043e55bec0a755617cbdad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 22/33] fix: accept the documented str paths when exporting bag
 topics

---
 rigid_body_motion/ros/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 4f1dada..8169e76 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -39,8 +39,8 @@ class RosbagReader:
             folder, filename = self.bag_file.parent, self.bag_file.stem
             filename = folder / f"{filename}.{extension}"
         else:
-            folder = output_file.parent
-            filename = output_file
+            filename = Path(output_file)
+            folder = filename.parent
 
         folder.mkdir(parents=True, exist_ok=True)
 
-- 
2.43.0


From a7584484003bef26c441ecddaa7ce2ad89c3c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 23/33] fix: write datasets of any time resolution and
 dimension order to bags

---
 rigid_body_motion/ros/io.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 8169e76..2b84fea 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -354,15 +354,20 @@ class RosbagWriter:
         rotation: str, default 'orientation'
             Name of the variable containing the rotation.
         """
-        if np.issubdtype(ds[timestamps].dtype, np.datetime64):
-            timestamps = ds[timestamps].astype(float) / 1e9
-        else:
-            timestamps = ds[timestamps]
+        # time along the first axis
+        translation = ds[translation].transpose(timestamps, ...)
+        rotation = ds[rotation].transpose(timestamps, ...)
+
+        timestamps = ds[timestamps].values
+        if np.issubdtype(timestamps.dtype, np.datetime64):
+            timestamps = (
+                timestamps.astype("datetime64[ns]").astype(float) / 1e9
+            )
 
         self.write_transform_stamped(
             timestamps,
-            ds[translation],
-            ds[rotation],
+            translation,
+            rotation,
             topic,
             frame,
             child_frame,
-- 
2.43.0


From eafedc9d65d7b60f4a70508d0f9b6ac46f3dcfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 24/33] fix: register labelled transforms whose time dimension
 is not first

---
 rigid_body_motion/reference_frames.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index be8a882..9d14175 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -408,8 +408,8 @@ class ReferenceFrame(NodeMixin):
         return cls(
             name,
             parent,
-            ds[translation].data,
-            ds[rotation].data,
+            ds[translation].transpose(*ds[timestamps].dims, ...).data,
+            ds[rotation].transpose(*ds[timestamps].dims, ...).data,
             ds[timestamps].data,
             inverse=inverse,
             discrete=discrete,
@@ -462,7 +462,7 @@ class ReferenceFrame(NodeMixin):
         return cls(
             name,
             parent,
-            translation=da.data,
+            translation=da.transpose(*da[timestamps].dims, ...).data,
             timestamps=da[timestamps].data,
             inverse=inverse,
             discrete=discrete,
@@ -515,7 +515,7 @@ class ReferenceFrame(NodeMixin):
         return cls(
             name,
             parent,
-            rotation=da.data,
+            rotation=da.transpose(*da[timestamps].dims, ...).data,
             timestamps=da[timestamps].data,
             inverse=inverse,
             discrete=discrete,
-- 
2.43.0


From 52be66666008dac3be67e078257b10b1ba7f05be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:30 +0000
Subject: [PATCH 25/33] fix: transform untimed arrays of any shape through
 moving frames

Data without timestamps was repeated along its second to last axis instead
of along a new time axis: an array of several points raised an error about
incompatible shapes or, if its first axis happened to be as long as the
timestamps, was paired with them.
---
 rigid_body_motion/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 55ab9cd..09d767d 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -87,7 +87,10 @@ class TransformMatcher:
             if timestamps is None:
                 return array.data
             else:
-                return np.tile(array.data, (len(timestamps), 1))
+                # same data for each timestamp
+                return np.tile(
+                    array.data, (len(timestamps),) + (1,) * array.data.ndim
+                )
         elif len(array.timestamps) == 1:
             # nothing to interpolate, at most this timestamp is requested
             return np.repeat(array.data, len(timestamps), axis=0)
-- 
2.43.0


From 24a0e6ee243a029a39604b0b212cddc27fde6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:15 +0000
Subject: [PATCH 26/33] fix: missing Euler angles give a missing orientation

---
 rigid_body_motion/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index e45ad72..5f2976a 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -318,8 +318,11 @@ def from_euler_angles(
     else:
         shape = None
 
+    missing = False
+
     if roll is not None:
         roll = np.asarray(roll)
+        missing = missing | np.isnan(roll)
         shape = roll.shape
         roll = from_rotation_vector(
             np.stack((roll, np.zeros(shape), np.zeros(shape)), axis=-1)
@@ -334,6 +337,7 @@ def from_euler_angles(
                 f"Inconsistent shape for pitch argument: expected {shape}, "
                 f"got {pitch.shape}"
             )
+        missing = missing | np.isnan(pitch)
         pitch = from_rotation_vector(
             np.stack((np.zeros(shape), pitch, np.zeros(shape)), axis=-1)
         )
@@ -347,6 +351,7 @@ def from_euler_angles(
                 f"Inconsistent shape for yaw argument: expected {shape}, "
                 f"got {yaw.shape}"
             )
+        missing = missing | np.isnan(yaw)
         yaw = from_rotation_vector(
             np.stack((np.zeros(shape), np.zeros(shape), yaw), axis=-1)
         )
@@ -375,6 +380,10 @@ def from_euler_angles(
         if r is not None:
             q = q * r
 
+    # from_rotation_vector maps missing values to the identity
+    if np.any(missing):
+        q = q * np.where(missing, np.nan, 1.0)
+
     if return_quaternion:
         return q
     else:
-- 
2.43.0


From 2898deede0b07a79a9ddbc74567ecc905b86eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 27/33] fix: missing samples do not spread to their neighbours

---
 rigid_body_motion/core.py  | 24 ++++++++++++++++++++++--
 rigid_body_motion/utils.py |  7 ++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 09d767d..01fe201 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -22,6 +22,16 @@ Frame = namedtuple(
 Array = namedtuple("Array", ("data", "timestamps"))
 
 
+def _keep_samples(resampled, samples, t_in, t_out):
+    """Keep the samples next to missing ones at their own timestamps."""
+    if np.isnan(samples).any():
+        idx = np.minimum(np.searchsorted(t_in, t_out), len(t_in) - 1)
+        is_sample = t_in[idx] == t_out
+        resampled[is_sample] = samples[idx[is_sample]]
+
+    return resampled
+
+
 class TransformMatcher:
     """Matcher for timestamps from reference frames and arrays."""
 
@@ -74,6 +84,12 @@ class TransformMatcher:
                     timestamps.astype(float),
                 )
             )
+            translation = _keep_samples(
+                translation, frame.translation, frame.timestamps, timestamps
+            )
+            rotation = _keep_samples(
+                rotation, frame.rotation, frame.timestamps, timestamps
+            )
 
         return translation, rotation
 
@@ -97,7 +113,7 @@ class TransformMatcher:
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-                return as_float_array(
+                data = as_float_array(
                     squad(
                         as_quat_array(array.data),
                         array.timestamps.astype(float),
@@ -106,10 +122,14 @@ class TransformMatcher:
                 )
             else:
                 # TODO method + optional scipy dependency?
-                return interp1d(
+                data = interp1d(
                     array.timestamps.astype(float), array.data, axis=0
                 )(timestamps.astype(float))
 
+            return _keep_samples(
+                data, array.data, array.timestamps, timestamps
+            )
+
     def add_reference_frame(self, frame, inverse=False):
         """Add a reference frame to the matcher.
 
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 5f2976a..e42b938 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -14,7 +14,11 @@ from quaternion import (
 from quaternion import rotate_vectors as quat_rv
 from quaternion import squad
 
-from rigid_body_motion.core import _resolve_axis, _to_nanoseconds
+from rigid_body_motion.core import (
+    _keep_samples,
+    _resolve_axis,
+    _to_nanoseconds,
+)
 
 
 def qinv(q, qaxis=-1):
@@ -183,6 +187,7 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
             "Error using SQUAD with multi-dimensional array, please upgrade "
             "the quaternion package to the latest version"
         )
+    qi = _keep_samples(qi, q, t_in, t_out)
     qi = np.swapaxes(qi, 0, axis)
 
     if was_quaternion:
-- 
2.43.0


From ec46e14a348b65d94ac52e2f7f30d7d7c20a865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:16 +0000
Subject: [PATCH 28/33] fix: repeated timestamps keep each of their samples

---
 rigid_body_motion/core.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 01fe201..680e49e 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -22,6 +22,13 @@ Frame = namedtuple(
 Array = namedtuple("Array", ("data", "timestamps"))
 
 
+def _same_samples(t_in, t_out):
+    """Mask of the samples if these are all that is requested, else None."""
+    mask = np.isin(t_in, t_out)
+
+    return mask if np.array_equal(t_in[mask], t_out) else None
+
+
 def _keep_samples(resampled, samples, t_in, t_out):
     """Keep the samples next to missing ones at their own timestamps."""
     if np.isnan(samples).any():
@@ -73,6 +80,10 @@ class TransformMatcher:
             for r, ts in zip(frame.rotation, frame.timestamps):
                 rotation[timestamps >= ts, :] = r
         else:
+            same = _same_samples(frame.timestamps, timestamps)
+            if same is not None:
+                return frame.translation[same], frame.rotation[same]
+
             # TODO method + optional scipy dependency?
             translation = interp1d(
                 frame.timestamps.astype(float), frame.translation, axis=0
@@ -111,6 +122,10 @@ class TransformMatcher:
             # nothing to interpolate, at most this timestamp is requested
             return np.repeat(array.data, len(timestamps), axis=0)
         else:
+            same = _same_samples(array.timestamps, timestamps)
+            if same is not None:
+                return array.data[same]
+
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
                 data = as_float_array(
-- 
2.43.0


From f018d09c5fd27bd406ddc712d8990ea0151a40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 29/33] fix: mean of all quaternions for any qaxis

---
 rigid_body_motion/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index e42b938..0ca62e0 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -131,6 +131,8 @@ def qmean(q, axis=None, qaxis=-1):
 
     if was_quaternion:
         return as_quat_array(qm)
+    elif qm.ndim == 1:
+        return qm
     else:
         return np.swapaxes(qm, -1, qaxis)
 
-- 
2.43.0


From 3ee447b781393e7ed64bde75c34bf1ff2e812aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:18 +0000
Subject: [PATCH 30/33] fix: positions of millimetre motion-capture exports in
 metres

---
 rigid_body_motion/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/io.py b/rigid_body_motion/io.py
index 532e26e..509ed2d 100644
--- a/rigid_body_motion/io.py
+++ b/rigid_body_motion/io.py
@@ -54,10 +54,11 @@ def load_optitrack(filepath, import_format="numpy"):
         for idx, gp in df.groupby(level=0, axis=1)
     }
 
-    # convert cm to m (if applicable)
-    if meta.get("Length Units", None) == "Centimeters":
+    # convert cm or mm to m (if applicable)
+    units_per_m = {"Centimeters": 100, "Millimeters": 1000}
+    if meta.get("Length Units", None) in units_per_m:
         for name in data_dict:
-            data_dict[name]["Position"] /= 100
+            data_dict[name]["Position"] /= units_per_m[meta["Length Units"]]
 
     # convert orientation to quaternions
     for name in data_dict:
-- 
2.43.0


From d82bea8ce97834fa8a6af862d8be1e7e5631440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:24 +0000
Subject: [PATCH 31/33] fix: refuse calendar timestamps that decrease by
 nanoseconds

---
 rigid_body_motion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 680e49e..e007374 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -51,7 +51,7 @@ class TransformMatcher:
     def _check_timestamps(cls, timestamps, arr_shape):
         """Make sure timestamps are monotonic."""
         if timestamps is not None:
-            if np.any(np.diff(timestamps.astype(float)) < 0):
+            if np.any(timestamps[1:] < timestamps[:-1]):
                 raise ValueError("Timestamps must be monotonic")
             if len(timestamps) != arr_shape[0]:
                 raise ValueError(
-- 
2.43.0


From 99ad6afa92392b6b4aa738634ed09f338ef25127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:19 +0000
Subject: [PATCH 32/33] fix: transform time series without samples in common
 further

---
 rigid_body_motion/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index e007374..445743d 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -228,6 +228,10 @@ class TransformMatcher:
         timestamps: array_like
             The timestamps for which the transformation is defined.
         """
+        for array in self.arrays:
+            if array.timestamps is not None and len(array.timestamps) == 0:
+                return array.timestamps  # nothing in common without samples
+
         # TODO specify rf name as priority?
         ts_range = self.get_range()
 
@@ -529,7 +533,9 @@ def _make_dataarray(arr, coords, dims, name, attrs, time_dim, ts_out):
             # interpolate if timestamps after transform have changed
             for c in coords:
                 if time_dim in coords[c].dims and c != time_dim:
-                    if np.issubdtype(coords[c].dtype, np.number):
+                    if np.issubdtype(coords[c].dtype, np.number) and len(
+                        ts_out
+                    ):
                         coords[c] = coords[c].interp({time_dim: ts_out})
                     else:
                         coords[c] = coords[c].sel(
-- 
2.43.0


From 52aeefff2414bcd93c607e8da07ae1e0eaed2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:50 +0000
Subject: [PATCH 33/33] fix: match dimensions of labelled second vectors to the
 first

---
 rigid_body_motion/estimators.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 2fba8e2..392471d 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -11,12 +11,20 @@ from rigid_body_motion.core import (
     _maybe_unpack_dataarray,
     _replace_dim,
 )
-from rigid_body_motion.utils import rotate_vectors
+from rigid_body_motion.utils import is_dataarray, rotate_vectors
+
+
+def _match_dims(v1, v2):
+    """Order the dimensions of v2 like those of v1 if both are DataArrays."""
+    if is_dataarray(v1) and is_dataarray(v2) and set(v1.dims) == set(v2.dims):
+        v2 = v2.transpose(*v1.dims)
+
+    return v2
 
 
 def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     """Reshape input vectors to two dimensions."""
-    # TODO v2 as DataArray with possibly different dimension order
+    v2 = _match_dims(v1, v2)
     v1, axis, _, _, _, _, coords, *_ = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
@@ -262,6 +270,7 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
     rotation: array_like, shape (..., 4, ...)
         The quaternion representation of the shortest-arc rotation.
     """
+    v2 = _match_dims(v1, v2)
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-- 
2.43.0

