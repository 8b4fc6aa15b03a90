From d62ac4dbb65cbd80d2cf28ffa13b1d39079f22db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 01/25] fix: do not weight overlapping subarray views in place
 in ESPRIT

---
 doatools/estimation/esprit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index ac70c2b..840dd87 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -121,8 +121,9 @@ class Esprit1D:
         Es2 = Es[displacement:, :]
         # Apply row weights.
         if row_weights is not None:
-            Es1 *= row_weights[:, np.newaxis]
-            Es2 *= row_weights[:, np.newaxis]
+            # Es1 and Es2 are overlapping views of Es: do not weight in place.
+            Es1 = Es1 * row_weights[:, np.newaxis]
+            Es2 = Es2 * row_weights[:, np.newaxis]
         # Estimate the rotation matrix.
         if formulation == 'tls':
             # Total least-squares
-- 
2.43.0


From d9e52cf8331ccf6477011ad7404aa78fa9906cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 02/25] fix: forward keyword arguments of uniform circular
 arrays

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 6d19a23..3c6ff38 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -704,7 +704,7 @@ class UniformCircularArray(ArrayDesign):
         self._r = r
         theta = np.linspace(0., np.pi * (2.0 - 2.0 / n), n)
         locations = np.vstack((r * np.cos(theta), r * np.sin(theta))).T
-        super().__init__(locations, name)
+        super().__init__(locations, name, **kwargs)
 
     @property
     def radius(self):
-- 
2.43.0


From ee96a4ae725ef14ca4dcd3fe9588574a08a2b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 03/25] fix: accept 20-element minimum redundancy linear arrays

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 3c6ff38..612ced0 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -680,7 +680,7 @@ class MinimumRedundancyLinearArray(GridBasedArrayDesign):
     """
 
     def __init__(self, n, d0, name=None, **kwargs):
-        if n < 1 or n >= len(_MRLA_PRESETS):
+        if n < 1 or n > len(_MRLA_PRESETS):
             raise ValueError('The MRLA presets only support up to 20 elements.')
         if name is None:
             name = 'MRLA {0}'.format(n)
-- 
2.43.0


From cb4e778419a290b89ef3066782bb66ed10434cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 04/25] fix: accept list-like gain and phase errors

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 627b9d3..c795762 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -176,7 +176,7 @@ class GainErrors(ArrayPerturbation):
     """
     def __init__(self, gain_errors, known=False):
         if not isinstance(gain_errors, np.ndarray):
-            gain_erros = np.array(gain_errors)
+            gain_errors = np.array(gain_errors)
         if gain_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(gain_errors, known)
@@ -232,7 +232,7 @@ class PhaseErrors(ArrayPerturbation):
     """
     def __init__(self, phase_errors, known=False):
         if not isinstance(phase_errors, np.ndarray):
-            gain_erros = np.array(phase_errors)
+            phase_errors = np.array(phase_errors)
         if phase_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(phase_errors, known)
-- 
2.43.0


From 9f70db1c7432933efc0dcb163836c980626ff0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 05/25] fix: reject non-square mutual coupling matrices

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index c795762..92a8b65 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -290,7 +290,7 @@ class MutualCoupling(ArrayPerturbation):
     def __init__(self, C, known=False):
         if not isinstance(C, np.ndarray):
             C = np.array(C)
-        if C.ndim != 2 and C.shape[0] != C.shape[1]:
+        if C.ndim != 2 or C.shape[0] != C.shape[1]:
             raise ValueError('Expecting a square matrix.')
         super().__init__(C, known)
 
-- 
2.43.0


From f9e53eec06631abf72fde48c9ae5e32dadac64e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 06/25] fix: raise ValueError for out-of-range far-field 1D
 sources

---
 doatools/model/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 8e619a6..06a451b 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -197,8 +197,8 @@ class FarField1DSourcePlacement(SourcePlacement):
         lb, ub = FarField1DSourcePlacement.VALID_RANGES[unit]
         if np.any(locations < lb) or np.any(locations > ub):
             raise ValueError(
-                "When unit is '{0}', source locations must be within [{0}, {1}]."
-                .format_map(unit, lb, ub)
+                "When unit is '{0}', source locations must be within [{1}, {2}]."
+                .format(unit, lb, ub)
             )
         super().__init__(locations, (unit,))
 
-- 
2.43.0


From 854e320e5cbb274613c1e7ea2cf93fd883c52bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 07/25] fix: accept scalar amplitudes in random phase signals

---
 doatools/model/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index a2282cd..946d4a0 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -93,7 +93,7 @@ class RandomPhaseSignal(SignalGenerator):
     def __init__(self, dim, amplitudes=1.0):
         self._dim = dim
         if np.isscalar(amplitudes):
-            self._amplitudes = np.full(amplitudes, (dim, 1))
+            self._amplitudes = np.full((dim, 1), amplitudes)
         else:
             if amplitudes.size != dim:
                 raise ValueError("The size of 'amplitudes' does not match the value of 'dim'.")
-- 
2.43.0


From f45e7b65e33468957436274beaa402de9dbcbcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 08/25] fix: build far-field 1D grids from multiple ranges
 correctly

---
 doatools/estimation/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index de5e7a2..1cb8797 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -264,10 +264,11 @@ class FarField1DSearchGrid(SearchGrid):
                 locations = np.linspace(start, stop, size, endpoint=False)
             else:
                 n_points = sum(size)
-                locations = np.zeros((n_points, 1))
+                locations = np.zeros((n_points,))
                 offset = 0
                 for k in range(len(start)):
-                    locations[offset:offset+size[k], 0] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    locations[offset:offset+size[k]] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    offset += size[k]
             super().__init__((locations,), ('DOA',), (unit,))
     
     def _create_source_placement(self):
-- 
2.43.0


From 4fb7cce65d9ed0cb30b17d49fcffe30e340486c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 09/25] fix: define create_refined_grid_at for near-field grids

---
 doatools/estimation/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index 1cb8797..fc9b092 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -415,7 +415,7 @@ class NearField2DSearchGrid(SearchGrid):
     def _create_source_placement(self):
         return NearField2DSourcePlacement(cartesian(*self._axes))
 
-    def create_refined_grids_at(self, coord, density=10, span=1):
+    def create_refined_grid_at(self, coord, density=10, span=1):
         """Creates a finer search grid for 2D near-field sources.
         
         Args:
-- 
2.43.0


From 64bd9235f789db326e4d21881970ca13120ca1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 10/25] fix: check both dimensions of the covariance matrix

---
 doatools/estimation/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 09deb3b..5c94bec 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -10,7 +10,7 @@ def ensure_covariance_size(R, array):
     m = array.size
     if R.ndim != 2:
         raise ValueError('Expecting a matrix.')
-    if R.shape[0] != m or R.shape[0] != m:
+    if R.shape[0] != m or R.shape[1] != m:
         raise ValueError(
             'The shape of the covariance matrix does not match the array size.'
             'Expected shape is {0}. Got {1}'
-- 
2.43.0


From 4487124f78e3ea1391264206e6e552aff92095fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 11/25] fix: use the inter-element spacing of the array in the
 coarray MUSIC error covariance

---
 doatools/performance/mse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index aece6fa..a236508 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, wavelength / 2.0)
+    arr_virtual = UniformLinearArray(m_v, array.d0[0])
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From 1d984ad4c8e7105a5ecd04ad08ffe8fdf025bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 12/25] fix: detect location errors when plotting arrays

---
 doatools/plotting/plot_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 325c04e..0591ec3 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -3,6 +3,7 @@ import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import warnings
 from ..model.coarray import compute_unique_location_differences
+from ..model.perturbations import LocationErrors
 
 def _auto_scatter(ax, x, *args, **kwargs):
     """Scatter plots the input points (1D, 2D, or 3D).
@@ -41,7 +42,7 @@ def _fix_3d_aspect(ax):
 
 def _plot_array_impl(array, ax=None, coarray=False, show_location_errors=False):
     """Internal implementation for plotting arrays."""
-    if not array.has_perturbation('location_errors') and show_location_errors:
+    if not array.has_perturbation(LocationErrors) and show_location_errors:
         warnings.warn(
             'The input array does not have location errors.'
             'Visualization of location errors is disabled.'
-- 
2.43.0


From 4b0ac06baab4fa1aebd858330a94220c492d6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 13/25] fix: draw 1D spectra on the given axes

---
 doatools/plotting/plot_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 2d6829f..3743bde 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -92,9 +92,9 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
             plot_containers.append(container_sp)
         else:
             if use_log_scale:
-                plot_containers.append(plt.semilogy(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.semilogy(x, y, '-', label=label, color=color))
             else:
-                plot_containers.append(plt.plot(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.plot(x, y, '-', label=label, color=color))
     # Plot estimates
     if estimates is not None:
         if estimates.units != grid.units:
@@ -122,7 +122,7 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
     ax.margins(x=0)
     # Set up y-axis
     if not use_log_scale:
-        ax.set_ylim((0, plt.ylim()[1]))
+        ax.set_ylim((0, ax.get_ylim()[1]))
     ax.set_ylabel('Normalized spectrum')
     # Show the legend.
     if has_legend:
-- 
2.43.0


From 25eb41a5abe380b4dd92dede9b2cfc9f942fbf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 14/25] fix: add location errors to integer element locations
 without a casting error

---
 doatools/model/perturbations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 92a8b65..fee9812 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -154,13 +154,16 @@ class LocationErrors(ArrayPerturbation):
         if loc_err_dim <= array_dim:
             # It is possible that the location errors only exist along the
             # first one or two axis.
-            perturbed_locations = locations.copy()
+            # Note that either of them may store integers.
+            perturbed_locations = locations.astype(
+                np.result_type(locations, self._params))
             perturbed_locations[:, :loc_err_dim] += self._params
         else:
             # Actual dimension is higher. For instance, this can happen if a
             # linear array, which is 1D, has location errors along both
             # x- and y-axis.
-            perturbed_locations = self._params.copy()
+            perturbed_locations = self._params.astype(
+                np.result_type(locations, self._params))
             perturbed_locations[:, :array_dim] += locations
         return perturbed_locations
 
-- 
2.43.0


From 556bcad9173eb3eae1a7440855144436785e1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 15/25] fix: report the output size of arrays with vector
 elements

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 612ced0..b1d2b3b 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -105,7 +105,7 @@ class ArrayDesign:
         In generate, the output size should be equal to ``size``. However, for
         vector sensor arrays, the output size is greater than the array size.
         """
-        return self.size
+        return self.size * self._element.output_size
     
     @property
     def element_locations(self):
-- 
2.43.0


From 4265e4cb2674b2454b597f5e2002587dfa45722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 16/25] fix: refine grids with non-uniform axes around the
 chosen point

---
 doatools/estimation/grid.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index fc9b092..e367e70 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -161,10 +161,17 @@ class SearchGrid(ABC):
             # Lower bound and upper bound indices.
             i_lb = max(0, coord[j] - span)
             i_ub = min(self._shape[j] - 1, coord[j] + span)
-            # Convert to actual values.
-            lb = self._axes[j][i_lb]
-            ub = self._axes[j][i_ub]
-            axes.append(np.linspace(lb, ub, (i_ub - i_lb) * density + 1))
+            # Subdivide each interval between the two bounds.
+            axis = self._axes[j][i_lb:i_ub + 1]
+            steps = np.diff(axis)
+            if np.allclose(steps, steps[:1], rtol=1e-6, atol=0.0):
+                axes.append(np.linspace(axis[0], axis[-1], steps.size * density + 1))
+            else:
+                # The axis is not uniform around the coordinate (e.g., it is a
+                # combination of multiple uniform grids).
+                points = [np.linspace(axis[i], axis[i + 1], density, endpoint=False)
+                          for i in range(steps.size)]
+                axes.append(np.concatenate(points + [axis[-1:]]))
         return tuple(axes)
 
     def create_refined_grids_at(self, *coords, **kwargs):
-- 
2.43.0


From 9230a35c223bcb2302d1165a14d12c3f863b3b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 17/25] fix: store grid axes as floating-point numbers so that
 estimates can be refined

---
 doatools/estimation/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index e367e70..9ea8ff8 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -23,7 +23,8 @@ class SearchGrid(ABC):
             raise ValueError('axis_names should be a tuple.')
         if not isinstance(units, tuple):
             raise ValueError('units should be a tuple.')
-        self._axes = axes
+        # Integer axes cannot store refined locations.
+        self._axes = tuple(np.asarray(ax, dtype=np.float_) for ax in axes)
         self._shape = tuple(len(ax) for ax in axes)
         self._axis_names = axis_names
         self._units = units
-- 
2.43.0


From 3a08de0024209e6784691ef0218235e9d825e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 18/25] fix: keep one root of every pair on the unit circle in
 root-MUSIC

---
 doatools/estimation/music.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index 00f960e..3fcb3d8 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -160,25 +160,30 @@ class RootMUSIC1D:
         # circle.
         nz = len(z)
         mask = np.ones((nz,), dtype=np.bool_)
+        paired = np.zeros((nz,), dtype=np.bool_)
         for i in range(nz):
+            if paired[i]:
+                # Already paired with a point on the unit circle.
+                continue
             absz = abs(z[i])
-            if absz > 1.0:
-                # Outside the unit circle.
-                mask[i] = False
-            elif absz == 1.0:
-                # On the unit circle. Need to find the closest point and remove
-                # it.
+            if abs(absz - 1.0) < 1e-12:
+                # On the unit circle (up to rounding errors). Need to find the
+                # closest point and remove it.
                 idx = -1
                 dist = np.inf
                 for j in range(nz):
-                    if j != i and mask[j]:
+                    if j != i and not paired[j]:
                         cur_dist = abs(z[i] - z[j])
                         if cur_dist < dist:
                             dist = cur_dist
                             idx = j
                 if idx < 0:
                     raise RuntimeError('Unpaired point found on the unit circle, which is impossible.')
+                paired[i] = paired[idx] = True
                 mask[idx] = False
+            elif absz > 1.0:
+                # Outside the unit circle.
+                mask[i] = False
         z = z[mask]
         sorted_indices = np.argsort(1.0 - np.abs(z))
         if len(z) < k:
-- 
2.43.0


From 3c4557f642addb2aa74069e67b1740e2f03be443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 19/25] fix: reject unknown units when creating sources from
 roots

---
 doatools/model/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 06a451b..ffa89ad 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -228,8 +228,10 @@ class FarField1DSourcePlacement(SourcePlacement):
         locations.sort()        
         if unit == 'rad':
             return FarField1DSourcePlacement(locations)
-        else:
+        elif unit == 'deg':
             return FarField1DSourcePlacement(np.rad2deg(locations), 'deg')
+        else:
+            raise ValueError("Unit can only be 'rad', 'deg' or 'sin'.")
 
     @property
     def is_far_field(self):
-- 
2.43.0


From 619ad71617f1c232328f32ac5afb1b37ad6e160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 20/25] fix: allow integer covariance matrices in spatial
 smoothing

---
 doatools/estimation/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index d8002b7..befa811 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -32,7 +32,7 @@ def spatial_smooth(R, l, fb=False):
     Rf = R[:m-l+1, :m-l+1].copy()
     for i in range(1, l):
         Rf += R[i:i+m-l+1, i:i+m-l+1]
-    Rf /= l
+    Rf = Rf / l
     if not fb:
         return Rf
     
-- 
2.43.0


From bb2c6c9e49740692e9ad3b5c862a1c4139021be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 21/25] fix: make SORTE independent of the scale of the
 eigenvalues

---
 doatools/estimation/source_number.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index d11dfd8..c759d79 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -88,8 +88,11 @@ def sorte(x):
     diffs = x[:-1] - x[1:]
     sigmas = [np.var(diffs[k:]) for k in range(n - 1)]
     s = np.zeros((n - 2,))
+    # Variances below this threshold are zeros up to rounding errors. The
+    # threshold must follow the scale of the eigenvalues.
+    threshold = (n * np.finfo(np.float_).eps * x[0])**2
     for k in range(n - 2):
-        if np.abs(sigmas[k]) < np.finfo(np.float_).eps:
+        if np.abs(sigmas[k]) <= threshold:
             s[k] = np.inf
         else:
             s[k] = sigmas[k + 1] / sigmas[k]
-- 
2.43.0


From 5cc77574700bd262c0461aaf8fa5811f406b9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 22/25] fix: allow integer initial guesses in ML estimators

---
 doatools/estimation/ml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index ac7bfcd..ef23fb9 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -186,6 +186,8 @@ class CovarianceBasedMLEstimator(ABC):
         # This is reused and modified in-place during the optimization process
         # to avoid repeatedly creating new SourcePlacement instances.
         self._estimates = sources0[:]
+        # The working variable must be able to store non-integer locations.
+        self._estimates._locations = self._estimates.locations.astype(np.float_)
         # Use scipy for numerical optimization.
         # Subclasses should override this implementation if there exists faster
         # optimization approaches.
-- 
2.43.0


From c8c30c38ab87069b2b506d70613e91d836202963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 23/25] fix: use the modulus of the cross terms in the power
 block of the uncorrelated-source FIM

---
 doatools/performance/crb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/crb.py b/doatools/performance/crb.py
index dbb6809..9351c10 100644
--- a/doatools/performance/crb.py
+++ b/doatools/performance/crb.py
@@ -216,7 +216,7 @@ def crb_stouc_farfield_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     ARA = A_H @ R_inv @ A
     PP = np.outer(p, p)
     FIM_tt = 2.0 * ((DRD.T * ARA + DRA.conj() * ARD) * PP).real
-    FIM_pp = (ARA.conj().T * ARA).real
+    FIM_pp = (ARA.conj() * ARA).real
     R_inv2 = R_inv @ R_inv
     FIM_ss = np.trace(R_inv2).real
     # diag(A @ B) = np.sum(A^T * B, axis=0, keepdims=True)
-- 
2.43.0


From 074e195e2d0bdddb52c6d0c00ef386e695f514f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:04 +0000
Subject: [PATCH 24/25] fix: evaluate the stochastic likelihood when the
 determinant is below one

The log determinant of a positive definite covariance is negative whenever
its determinant is less than one (e.g. low noise); only the sign tells that
the matrix is not positive definite.
---
 doatools/estimation/ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index ef23fb9..0d86577 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -11,7 +11,7 @@ def f_nll_stouc(R, array, sources, wavelength, p, sigma):
     A = array.steering_matrix(sources, wavelength)
     S = (A * p) @ A.conj().T + sigma * np.eye(array.size)
     sgn, logdet = np.linalg.slogdet(S)
-    if sgn < 0 or logdet < 0:
+    if sgn <= 0:
         return np.Inf
     return logdet + np.trace(np.linalg.solve(S, R))
 
-- 
2.43.0


From 1b234e2d7c1061e9a3e3f0a7f76f23354641b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:01:30 +0000
Subject: [PATCH 25/25] fix: do not multiply the eigenvalues in AIC and MDL

The product of many eigenvalues overflows or underflows (e.g. 26 sensors in
units of 1e12 or 1e-17); average their logarithms instead.
---
 doatools/estimation/source_number.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index c759d79..04d6a4c 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -18,7 +18,8 @@ def ld_stat(l, n_sources, n_snapshots):
     n_sensors = l.size
     diff = n_sensors - n_sources
     l = l[:diff]
-    return n_snapshots * diff * log(np.sum(l) / diff / (np.prod(l)**(1./diff)))
+    # The product of many eigenvalues may overflow or underflow.
+    return n_snapshots * diff * (np.log(np.sum(l) / diff) - np.mean(np.log(l)))
 
 def aic(x, n_snapshots):
     """Detects source numbers using AIC.
-- 
2.43.0

