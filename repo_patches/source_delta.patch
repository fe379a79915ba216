From d35bf88c0fb4d786d65aa955ba3acf69a2c312a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 01/61] fix: bound_indices returns a boolean mask for unbounded
 dimensions, and the union of dimensions for outside

---
 kalepy/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index bc07528..63f0617 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -72,16 +72,16 @@ def bound_indices(data, bounds, outside=False):
     data = np.atleast_2d(data)
     bounds = np.atleast_2d(bounds)
     ndim, nvals = np.shape(data)
-    idx = np.ones(nvals, dtype=bool)
+    # Points must be inside the bounds in every dimension, or outside of them in at least one
+    idx = np.zeros(nvals, dtype=bool) if outside else np.ones(nvals, dtype=bool)
     for ii, bnd in enumerate(bounds):
         if bnd is None or ((len(bnd) == 1) and (bnd[0] is None)):
-            idx = idx & ~outside
             continue
 
         if outside:
             lo = (data[ii, :] < bnd[0]) if (bnd[0] is not None) else False
             hi = (bnd[1] < data[ii, :]) if (bnd[1] is not None) else False
-            idx = idx & (lo | hi)
+            idx = idx | lo | hi
         else:
             lo = True if (bnd[0] is None) else (bnd[0] < data[ii, :])
             hi = True if (bnd[1] is None) else (data[ii, :] < bnd[1])
-- 
2.43.0


From 24631720c03ae06b84377f56a81155da775106a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 02/61] fix: minmax does not truncate stretched or limited
 extrema of integer data

---
 kalepy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 63f0617..b2c2dbc 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -384,6 +384,9 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
     # Find extrema
     idx = (data > 0.0) if positive else slice(None)
     minmax = np.array([np.min(data[idx]), np.max(data[idx])])
+    # Integer extrema cannot hold the modified values
+    if any(vv is not None for vv in [stretch, log_stretch, prev, limit]):
+        minmax = minmax.astype(float)
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From 49fff0de3cfee898c60ffaeec20cbd09fed14eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 03/61] fix: kernel inside() works for one-dimensional arrays,
 and for the Gaussian

---
 kalepy/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 695bf76..b2af09d 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -505,7 +505,7 @@ class Gaussian(_Distribution):
         return samps
 
     @staticmethod
-    def inside(cls, points):
+    def inside(points):
         if np.ndim(points) == 1:
             shape = points.size
         else:
@@ -668,7 +668,7 @@ def get_distribution_class(arg=None):
 
 def _inside_unit_nball(points):
     if np.ndim(points) == 1:
-        idx = (-1.0 < points < 1.0)
+        idx = (np.fabs(points) < 1.0)
     else:
         points = np.linalg.norm(points, axis=0)
         idx = (points < 1.0)
-- 
2.43.0


From b5ab38a2f14ca795fb41847b83f5d5fd1796b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 04/61] fix: finite kernels are sampled from their own
 distribution in two or more dimensions

---
 kalepy/kernels.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index b2af09d..2071242 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -543,7 +543,8 @@ class Box(_Distribution):
         else:
             samps = np.random.normal(0.0, 1.0, (ndim, size))
             rads = np.sum(samps**2, axis=0) ** 0.5
-            norm = np.random.random((ndim, size)) ** (1.0 / ndim)
+            # One radius for each sample, so that directions remain isotropic
+            norm = np.random.random(size) ** (1.0 / ndim)
             samps = norm * samps / rads[np.newaxis, :]
         return samps
 
@@ -577,8 +578,15 @@ class Parabola(_Distribution):
     @classmethod
     def _sample(cls, size, ndim):
         # Use the median trick to draw from the Epanechnikov distribution
-        samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
-        samp = np.median(samp, axis=-1)
+        if ndim == 1:
+            samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
+            samp = np.median(samp, axis=-1)
+        # In more dimensions: isotropic directions, with the squared-radii following a beta distribution
+        else:
+            samp = np.random.normal(0.0, 1.0, (ndim, size))
+            rads = np.linalg.norm(samp, axis=0)
+            norm = np.random.beta(ndim / 2.0, 2.0, size) ** 0.5
+            samp = norm * samp / rads[np.newaxis, :]
         return samp
 
     @staticmethod
@@ -609,7 +617,11 @@ class Triweight(_Distribution):
     def _sample(cls, size, ndim):
         samps = np.random.normal(0.0, 1.0, (ndim, size))
         rads = np.linalg.norm(samps, axis=0)
-        norm = _triweight_inverse_func(np.random.random((ndim, size)))
+        # One radius for each sample, so that directions remain isotropic
+        if ndim == 1:
+            norm = _triweight_inverse_func(np.random.random(size))
+        else:
+            norm = np.random.beta(ndim / 2.0, 4.0, size) ** 0.5
         samps = norm * samps / rads[np.newaxis, :]
         return samps
 
-- 
2.43.0


From 360a9450c0c9bb0a43f68e758f4a8866f4027ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 05/61] fix: resample with both keep and reflect no longer
 decomposes a singular matrix

---
 kalepy/kernels.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 2071242..bd60a70 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -213,8 +213,8 @@ class Kernel(object):
         """Resample the given data using reflection.
         """
         matrix = self.matrix
-        # Modify covariance-matrix for any `keep` dimensions
-        matrix = utils.cov_keep_vars(matrix, keep, reflect=reflect)
+        # Make sure that no dimension is both kept and reflected
+        utils.cov_keep_vars(matrix, keep, reflect=reflect)
 
         ndim, nvals = np.shape(data)
 
@@ -245,8 +245,7 @@ class Kernel(object):
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
-            #    set `keep` to None, `matrix` is already modified to account for it
-            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
+            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=keep)
             # Find the (boolean) indices of values within target boundaries
             idx = utils.bound_indices(trial, bounds)
 
-- 
2.43.0


From b2685ae1ddbaedd550ef6b275bce6b284c713a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 06/61] fix: resample with reflect includes the mirrored points
 near the boundaries

---
 kalepy/kernels.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index bd60a70..500da51 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -240,7 +240,7 @@ class Kernel(object):
         samps = np.zeros((size, ndim))
         num_good = 0
         cnt = 0
-        MAX = 10
+        MAX = 20
         draw = chunk_size
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
@@ -326,8 +326,7 @@ class Kernel(object):
 
     def _truncate_reflections(self, data, bounds, weights=None):
         # Determine the bounds outside of which we should truncate
-        # trunc = self._get_truncation_bounds(bounds)
-        trunc = bounds
+        trunc = self._get_truncation_bounds(bounds)
         # Find the data-points outside of those bounds
         idx = utils.bound_indices(data, trunc)
         # Select only points within truncation bounds
@@ -339,9 +338,7 @@ class Kernel(object):
         return data, weights
 
     def _get_truncation_bounds(self, bounds):
-        trunc = np.zeros_like(bounds)
-
-        bw = self.bandwidth.diagonal()
+        bw = np.sqrt(self.matrix.diagonal())
         # If this kernel has finite-support, we only need to go out to 'bandwidth' on each side
         if self.FINITE:
             bw = bw * (1 + _NUM_PAD)
@@ -349,7 +346,7 @@ class Kernel(object):
         # If kernel has infinite-support, go to the quantile reaching the desired precision
         else:
             tol = _TRUNCATE_INFINITE_KERNELS
-            qnts = self.distribution.ppf([tol, 1-tol])
+            qnts = sp.stats.norm.ppf([tol, 1-tol])
             qnts = qnts[np.newaxis, :] * bw[:, np.newaxis]
 
         # Expand the reflection bounds based on the bandwidth interval
-- 
2.43.0


From 86fdecdfa244e2a47839ba4ee00f46a83cce3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 07/61] fix: KDE.cdf stays between zero and one beyond its grid

---
 kalepy/kde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 690c87a..23f6c77 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -525,6 +525,9 @@ class KDE:
 
         # `scipy.interplate.RegularGridInterpolator` expects shape (N,D,) -- so transpose
         pnts = np.asarray(pnts).T
+        # Beyond the edges of the grid the CDF does not change
+        grid = self._cdf_grid[0]
+        pnts = np.clip(pnts, [gg[0] for gg in grid], [gg[-1] for gg in grid])
         cdf = self._cdf_func(pnts)
         return cdf
 
-- 
2.43.0


From 629f7e4b2bcb46845fa0c579fbd0ba3db1bfd833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 08/61] fix: rem_cov works without a given covariance in any
 number of dimensions

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index b2c2dbc..ef9d63f 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -645,7 +645,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
 
 def rem_cov(data, cov=None):
     if cov is None:
-        cov = np.cov(*data)
+        cov = np.atleast_2d(np.cov(data))
     color_mat = sp.linalg.cholesky(cov)
     uncolor_mat = np.linalg.inv(color_mat)
     white_data = np.dot(uncolor_mat.T, data)
-- 
2.43.0


From 235eef7f248a201fcf73ca21f9c668753a25198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 09/61] fix: subdivide with zero subdivisions returns the input
 instead of nothing

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index ef9d63f..28eb504 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -820,7 +820,8 @@ def subdivide(xx, num=1, log=False):
     dd = np.diff(np.concatenate([div, [0.0]]))[:, np.newaxis]
     dd = dd * np.linspace(0.0, 1.0, num+1, endpoint=False)[np.newaxis, :]
     div = div[:, np.newaxis] + dd
-    div = div.flatten()[:-num]
+    div = div.flatten()
+    div = div[:div.size - num]
     if log:
         div = 10.0 ** div
 
-- 
2.43.0


From 135621acdf94a3478aa5f8305fd213699deb4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 10/61] fix: integer data is not truncated when it is reflected

---
 kalepy/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 500da51..9c09d2e 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -123,7 +123,7 @@ class Kernel(object):
                     continue
 
                 # shape (D,N) i.e. (dimensions, data-points)
-                refl_data = np.array(data)
+                refl_data = np.array(data, dtype=float)
                 refl_data[ii, :] = 2*loc - refl_data[ii, :]
                 result += _evaluate_numba(whitening, refl_data, points, weights, kfunc)
 
@@ -311,7 +311,7 @@ class Kernel(object):
                     continue
 
                 bounds[ii, jj] = loc
-                new_data = np.array(old_data)
+                new_data = np.array(old_data, dtype=float)
                 new_data[ii, :] = loc - (new_data[ii, :] - loc)
                 # NOTE: this returns a copy, so original `data` is *not* changed in-place
                 data = np.append(data, new_data, axis=-1)
-- 
2.43.0


From 701bb4047ad5ac739512fafe1af257cacd8be5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 11/61] fix: automatic reflection boundaries enclose the data,
 and the given reflect is not modified

---
 kalepy/kernels.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 9c09d2e..82fcd61 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -736,15 +736,20 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         err = "each row of `reflect` must be `None` or have shape (2,)!  '{}'".format(reflect)
         raise ValueError(err)
 
+    # Make a copy, so that the input object is not modified
+    reflect = [ref if (ref is None) or (ref is True) else list(ref) for ref in reflect]
+
     # Perform additional diagnostics
     for ii in range(ndim):
         if (reflect[ii] is True):
-            reflect[ii] = [np.min(data[ii])*(1 - _NUM_PAD), np.max(data[ii])*(1 + _NUM_PAD)]
-        elif (reflect[ii] is not None) and (True in reflect[ii]):
+            reflect[ii] = [True, True]
+        if (reflect[ii] is not None):
+            # Place boundaries just outside of the data, whatever its sign
+            pad = _NUM_PAD * np.max(np.fabs(data[ii]))
             if reflect[ii][0] is True:
-                reflect[ii][0] = np.min(data[ii])*(1 - _NUM_PAD)
+                reflect[ii][0] = np.min(data[ii]) - pad
             if reflect[ii][1] is True:
-                reflect[ii][1] = np.max(data[ii])*(1 + _NUM_PAD)
+                reflect[ii][1] = np.max(data[ii]) + pad
 
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
-- 
2.43.0


From 68103a2963cf2d82939689f8dcfc1d37ec96d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 12/61] fix: KDE.density accepts boolean reflect values

---
 kalepy/kde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 23f6c77..078e5de 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -349,6 +349,10 @@ class KDE:
         if (params is None) and (reflect is None):
             reflect = self.reflect
 
+        # Resolve boolean values: no reflection, or at the extrema of the data
+        if isinstance(reflect, bool):
+            reflect = kernels._check_reflect(reflect, data)
+
         # Make sure `reflect` shape matches the data
         if (reflect is not None) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
-- 
2.43.0


From ecb49af0ed75c1140f917dcb1eaad7ac04ac8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 13/61] fix: from_hist uses the centers of bins that are not
 uniform, or are fewer than two

---
 kalepy/kde.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 078e5de..685bd20 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -431,8 +431,8 @@ class KDE:
         if utils.really1d(bins):
 
             # Convert bins into points
-            dx = bins[2] - bins[1]
-            points = bins[:-1] + 0.5 * dx
+            dx = np.mean(np.diff(bins))
+            points = utils.midpoints(bins)
 
             # Normalize into a pdf
             hist = hist / (hist.sum() * dx)
@@ -458,8 +458,8 @@ class KDE:
 
             for bins_i in bins:
                 # Convert bins into points
-                dx = bins_i[2] - bins_i[1]
-                centers_i = bins_i[:-1] + 0.5 * dx
+                dx = np.mean(np.diff(bins_i))
+                centers_i = utils.midpoints(bins_i)
                 centers.append(centers_i)
 
                 dx_mult *= dx
-- 
2.43.0


From 39b0f11e166c7d5aed12a3acb5ae5a74c5d112c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 14/61] fix: weighted quantiles along any axis

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 28eb504..068c2f5 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -523,7 +523,7 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
         weights = np.take_along_axis(weights, sorter, axis=axis)
 
     weighted_quantiles = np.cumsum(weights, axis=axis) - 0.5 * weights
-    weighted_quantiles /= np.sum(weights, axis=axis)[..., np.newaxis]
+    weighted_quantiles /= np.sum(weights, axis=axis, keepdims=(axis is not None))
     if axis is None:
         percs = np.interp(percs, weighted_quantiles, values)
     else:
-- 
2.43.0


From 158af8448f7b85c4d106f59a37518ce6deb04e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 15/61] fix: cumtrapz along one axis prepends zeros only along
 that axis

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 068c2f5..40288a7 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -288,7 +288,7 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
     if prepend:
         ndim = _ndim(cdf)
         temp = [1, 0] if axis is None else [0, 0]
-        padding = [temp for ii in range(ndim)]
+        padding = [list(temp) for ii in range(ndim)]
         if axis is not None:
             padding[axis][0] = 1
         # cdf = _pre_pad_zero(cdf, axis=axis)
-- 
2.43.0


From bd4dcb456fc49feaa95b38618e8da2f9b231a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 16/61] fix: Sample_Grid follows the density within each bin,
 relative to that bin's average

---
 kalepy/sample.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index a9366c9..5aa38fb 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -132,9 +132,10 @@ class Sample_Grid:
 
         # ensure PDF `dens` is properly normalized for interpolation
         #     this normalization is based on each bin having a domain of [0.0, 1.0] during intrabin linear
-        #     interpolation sampling (`_intrabin_linear_interp()`)
+        #     interpolation sampling (`_intrabin_linear_interp()`), so it is the average over each bin
         if interpolate:
-            dens = dens / (dens.sum() / dens.size)
+            dens_ave = utils.midpoints(dens, log=False, axis=None)
+            dens_ave = np.where(dens_ave > 0.0, dens_ave, 1.0)
 
         # If no number of samples are given, assume that the units of `self._mass` are number of samples, and choose
         # the total numbe of samples to be the total of this
@@ -182,7 +183,7 @@ class Sample_Grid:
                 edge = np.asarray(edge)
 
                 # Find the gradient along this dimension (using center-values in other dimensions)
-                _grad = _grad_along(dens, dim)
+                _grad = _grad_along(dens, dim) / dens_ave
                 # get the gradient for each sample
                 grad = _grad.flat[bin_numbers_flat]
                 # interpolate edge values in this dimension
-- 
2.43.0


From 2ad4e25db5569b0589ab317a26a5fb2114382aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 17/61] fix: sample_grid returns scalars for one-dimensional
 distributions

---
 kalepy/sample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 5aa38fb..675f7bd 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -435,7 +435,11 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
     sampler = Sample_Grid(edges, dens, mass=mass, scalar_dens=scalar_dens, scalar_mass=scalar_mass)
     samples = sampler.sample(nsamp=nsamp, **sample_kwargs)
     if squeeze:
-        samples = samples.squeeze()
+        # values are returned together with scalars, if there are any
+        if isinstance(samples, tuple):
+            samples = tuple(ss.squeeze() for ss in samples)
+        else:
+            samples = samples.squeeze()
     return samples
 
 
-- 
2.43.0


From 030b9a21934ef4a06ee80db6d72eabd23850a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 18/61] fix: sample_grid_proportional uses the given mass

---
 kalepy/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 675f7bd..51fbac3 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -447,7 +447,7 @@ def sample_grid_proportional(edges, dens, portion, nsamp, mass=None, **sample_kw
     scalar_dens = dens / portion
     # Avoid NaN values
     scalar_dens[portion == 0.0] = 0.0
-    sampler = Sample_Grid(edges, portion, scalar_dens=scalar_dens)
+    sampler = Sample_Grid(edges, portion, mass=mass, scalar_dens=scalar_dens)
     vals, weight = sampler.sample(nsamp, **sample_kwargs)
     return vals, weight
 
-- 
2.43.0


From 08870fd272a870e040f6af2773f888e0c1cd3c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 19/61] fix: typo in the error message for a wrong shape of
 weights

---
 kalepy/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 82fcd61..94d57c6 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -89,7 +89,7 @@ class Kernel(object):
             weights = np.ones(num_data)
         elif (np.shape(weights) != (num_data,)):
             err = "Shape of `weights` ({}) does not match number of data points ({})!".format(
-                np.shpae(weights), num_data)
+                np.shape(weights), num_data)
             raise ValueError(err)
 
         # -----------------    Calculate Density
-- 
2.43.0


From 0eceabeaa717365cb990dba2aec583d16df89c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 20/61] fix: KDE accepts a list of weights

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 685bd20..aaa4be1 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -201,10 +201,10 @@ class KDE:
                 err = "`weights` input (shape={}) should be shaped as (N,)=({},)!".format(np.shape(weights), ndata)
                 raise ValueError(err)
 
+            weights = np.array(weights, dtype=float)
             if np.count_nonzero(weights) == 0 or np.any(~np.isfinite(weights) | (weights < 0)):
                 raise ValueError("Invalid `weights` entries, all must be finite and > 0!")
 
-            weights = np.asarray(weights).astype(float)
             weights_uniform = False
 
         if neff is None:
-- 
2.43.0


From 3796d023394cfcdf93e5461e610192a790c892e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 21/61] fix: the density() and pdf() functions apply params
 instead of giving it to the KDE constructor

---
 kalepy/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/__init__.py b/kalepy/__init__.py
index bbee33d..215c871 100644
--- a/kalepy/__init__.py
+++ b/kalepy/__init__.py
@@ -68,7 +68,7 @@ del _path
 # High Level API Functions
 # -----------------------------------
 
-def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, **kwargs):
+def density(data, points=None, weights=None, reflect=None, params=None, probability=False, grid=False, **kwargs):
     """Use a KDE to calculate the density of the given data.
 
     This function (1) constructs a kernel-density estimate of the distribution function from which
@@ -136,7 +136,7 @@ def density(data, points=None, weights=None, reflect=None, probability=False, gr
 
     """
     kde = KDE(data, weights=weights, reflect=reflect, **kwargs)
-    points, vals = kde.density(points, probability=probability, grid=grid)
+    points, vals = kde.density(points, params=params, probability=probability, grid=grid)
     return points, vals
 
 
-- 
2.43.0


From fa00c55969eb46d6953ef28247c28ec62f396b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 22/61] fix: resample with reflect draws enough candidates,
 most of the mirrored ones are outside of the boundaries

---
 kalepy/kernels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 94d57c6..3712fff 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -241,7 +241,8 @@ class Kernel(object):
         num_good = 0
         cnt = 0
         MAX = 20
-        draw = chunk_size
+        # some of the points will be outside of the boundaries
+        draw = np.minimum((2**ndim) * chunk_size, self._chunk)
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
-- 
2.43.0


From 58800a84bd18df53710e66c14e41f01a102a2866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 23/61] fix: unspecified extrema are filled in from the data of
 each dimension, also when given as tuples

---
 kalepy/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 40288a7..d3847f7 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1232,12 +1232,14 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
 
     if extrema is None:
         extrema = data_extrema
-    elif (params is not None) and (len(extrema) != npars):
-        extrema = [extrema[pp] for pp in params]
 
     # Check components of given `extrema` to make sure they are valid
     #   fill in any `None` values with extrema from the data
     else:
+        # Select the extrema of the target parameters
+        if (params is not None) and (len(extrema) != npars):
+            extrema = [extrema[pp] for pp in params]
+
         # Convert from (2,) ==> (D, 2)
         if really1d(extrema) and (np.shape(extrema) == (2,)):
             extrema = [extrema for ii in range(npars)]
@@ -1255,10 +1257,11 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
                 jshape(extrema), npars)
             raise ValueError(err)
 
+        # Each dimension is filled in separately
+        extrema = [[None, None] if (ee is None) else list(ee) for ee in extrema]
+
         # Fill in `None` values and check if given `extrema` is out of bounds for data
         for dd in range(npars):
-            if extrema[dd] is None:
-                extrema[dd] = [None, None]
 
             for ii in range(2):
                 if extrema[dd][ii] is None:
-- 
2.43.0


From 17e102d2618d5fe8d3a89fc5b804a057fca999ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 24/61] fix: confidence intervals drawn by dist1d are weighted

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index fc84b59..0cf1811 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1355,7 +1355,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw Contours and Median Line
     if confidence:
-        hh = _confidence(data, ax=ax, color=color, quantiles=quantiles, rotate=rotate)
+        hh = _confidence(data, ax=ax, weights=weights, color=color, quantiles=quantiles, rotate=rotate)
         if handle is None:
             handle = hh
 
-- 
2.43.0


From 0199a3b4db4de9cddee80eeab4396d5b1a194cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 25/61] fix: Corner plots of data use the weights of the data

---
 kalepy/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 0cf1811..64df208 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -358,7 +358,7 @@ class Corner:
         dist2d.setdefault('mask_below', False)
 
         # Plot
-        rv = self.plot_data(data, dist1d=dist1d, dist2d=dist2d, **kwargs)
+        rv = self.plot_data(data, weights=weights, dist1d=dist1d, dist2d=dist2d, **kwargs)
         return rv
 
     def plot(self, kde_data=None, edges=None, weights=None, quantiles=None,
@@ -635,6 +635,9 @@ class Corner:
             if data is None:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
+            # Use the weights of this data also
+            if weights is None:
+                weights = self._weights
 
         # If a KDE is given, extract the dataset
         kde, data, weights = _parse_kde_data(data, weights=weights)
-- 
2.43.0


From ca1cf010c84479c4651753a78f6f6872f58fa786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 26/61] fix: Corner.target shades the allowed side of lower
 limits in the 2D panels

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 64df208..d36af97 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -851,7 +851,7 @@ class Corner:
                 if upper_limits[kk] is not None:
                     func_lim(extr[kk][0], upper_limits[kk], **span_kw)
                 if lower_limits[kk] is not None:
-                    func_lim(lower_limits[kk], extr[kk][0], **span_kw)
+                    func_lim(lower_limits[kk], extr[kk][1], **span_kw)
 
         return
 
-- 
2.43.0


From 75b5c80b6cdbc6398564c092b67169a995e795b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 27/61] fix: Corner plotting methods do not carry settings from
 one call over to the next

---
 kalepy/plot.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d36af97..40a0ffc 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -293,6 +293,9 @@ class Corner:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
 
+        # Settings are modified below, leave the given ones unchanged
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # If data is given, convert to KDE as needed
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
@@ -341,6 +344,9 @@ class Corner:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
 
+        # Settings are modified below, leave the given ones unchanged
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # If KDE is given, retrieve the dataset from it
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
@@ -424,6 +430,9 @@ class Corner:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
 
+        # Settings are modified below, leave the given ones unchanged
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # If data is given, construct KDE
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
@@ -509,6 +518,9 @@ class Corner:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
 
+        # Settings are modified below, leave the given ones unchanged
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # If data is given, construct KDE
         kde, data, weights = _parse_kde_data(kde, weights=weights)
 
-- 
2.43.0


From 3e32dab2ec3d747a1a5ee8e37b9d88a6e947a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 28/61] fix: dist2d draws the parameters in the order
 requested, also for two-dimensional data

---
 kalepy/plot.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 40a0ffc..763b4e0 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1495,10 +1495,9 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         kde = kde_data
         data = kde.dataset
         ndim = np.shape(data)[0]
-        if ndim > 2:
-            if len(params) != 2:
-                raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
-            data = np.vstack([data[ii] for ii in params])
+        if len(params) != 2:
+            raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
+        data = np.vstack([data[ii] for ii in params])
         weights = None if kde._weights_uniform else kde.weights
     else:
         try:
@@ -1524,7 +1523,10 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         mask_dense = (scatter is not None) and (hist or contour)
 
     # Calculate histogram
-    edges = utils.parse_edges(data, edges=edges, extrema=kde.reflect, params=params)
+    extrema = kde.reflect
+    if extrema is not None:
+        extrema = [extrema[pp] for pp in params]
+    edges = utils.parse_edges(data, edges=edges, extrema=extrema, params=params)
     hh, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
 
     _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles, sigmas=sigmas)
-- 
2.43.0


From c91caa2b8b57e1ab8721055cc57e40cf74c8ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 29/61] fix: contour levels of integer histograms

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 763b4e0..10f08cf 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2095,7 +2095,7 @@ def _dfm_levels(data, quantiles=None, sigmas=None):
     inds = np.argsort(data)[::-1]
     data = data[inds]
     sm = np.cumsum(data)
-    sm /= sm[-1]
+    sm = sm / sm[-1]
     levels = np.empty(len(quantiles))
     for i, v0 in enumerate(quantiles):
         try:
-- 
2.43.0


From b620d09e57a1ea64cbe3e04dac7db5d48eece1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 30/61] fix: contours are smoothed without upsampling

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 10f08cf..d8341e2 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1652,7 +1652,7 @@ def _prep_hist(edges, hist, smooth, upsample, pad):
     # perform smoothing
     if (smooth not in [None, False]):
         import scipy as sp
-        if upsample is not None:
+        if upsample not in [None, False]:
             smooth *= upsample
         hist = sp.ndimage.gaussian_filter(hist, smooth)
 
-- 
2.43.0


From 09177a9a5ffe72cdf592d516c50b96b5b4d03e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 31/61] fix: dist2d with contours of a single quantile

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d8341e2..4c754c1 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1585,7 +1585,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             cmap=contour_cmap, zorder=20, ls=ls, outline=outline,
         )
         if handle is None:
-            hi = 1 if len(_handle.collections) > 0 else 0
+            hi = 1 if len(_handle.collections) > 1 else 0
             handle = _handle.collections[hi]
             # for some reason the above handle is not showing up on legends... create a dummy line
             # to get a better handle
-- 
2.43.0


From 35ae6acd85e7af41d1f864af552da67f5ea07888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 32/61] fix: histograms of weighted data, or lists, without
 given bins

---
 kalepy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index d3847f7..a8666f7 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -298,8 +298,10 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
 
 
 def histogram(data, bins=None, weights=None, density=False, probability=False):
+    data = np.asarray(data)
     if bins is None:
-        bins = 'auto'
+        # bins cannot be chosen automatically by `np.histogram` for weighted data
+        bins = 'auto' if (weights is None) else parse_edges(data, weights=np.asarray(weights))
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
         hist = hist.astype(float) / np.diff(edges)
-- 
2.43.0


From bbf163a1614a789df165685e76d8ef48f89801c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 33/61] fix: weighted confidence intervals are not biased,
 equal weights give the unweighted ones

---
 kalepy/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 4c754c1..a52c53e 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1115,9 +1115,11 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         cdf = np.arange(data.size) / (data.size - 1)
     else:
         idx = np.argsort(data)
-        data = data[idx]
-        weights = weights[idx]
-        cdf = np.cumsum(weights) / np.sum(weights)
+        data = np.asarray(data)[idx]
+        weights = np.asarray(weights)[idx]
+        # from zero at the first point to one at the last, as for unweighted data
+        cdf = np.cumsum(weights) - 0.5 * weights
+        cdf = (cdf - cdf[0]) / (cdf[-1] - cdf[0])
 
     # Get both the lower (left) and upper (right) values of quantiles
     quantiles, _ = _default_quantiles(quantiles=quantiles)
-- 
2.43.0


From da2acb9db04338c72d63151e3b263b1f9da9758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 34/61] fix: carpet accepts a list of weights

---
 kalepy/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index a52c53e..987f0aa 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -990,6 +990,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     """
 
     xx = np.asarray(xx)
+    weights = weights if (weights is None) else np.asarray(weights)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting carpet points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
-- 
2.43.0


From dbfd0c1b30ab709ed8aa10313136b1febe59f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 35/61] fix: trapz_dens_to_mass accepts negative axes

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index a8666f7..fd30c5e 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -899,7 +899,8 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
     if axis is None:
         axis = np.arange(ndim)
 
-    axis = np.atleast_1d(axis)
+    # convert negative values, counting from the last axis
+    axis = np.arange(ndim)[np.atleast_1d(axis)]
     axis_ndim = len(axis)
     axis = sorted(axis)
 
-- 
2.43.0


From c2f4a156b316b6bf67fb89677ba2c87e26195d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:57 +0000
Subject: [PATCH 36/61] fix: density beyond the reflecting boundary of one
 dimension is zero whatever is reflected in the others

---
 kalepy/kernels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 3712fff..be80fea 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -114,6 +114,7 @@ class Kernel(object):
                 np.shape(reflect), np.shape(data))
             raise ValueError(err)
 
+        outside = np.zeros(num_points, dtype=bool)
         for ii, reflect_dim in enumerate(reflect):
             if reflect_dim is None:
                 continue
@@ -129,9 +130,10 @@ class Kernel(object):
 
             lo = -np.inf if (reflect_dim[0] is None) else reflect_dim[0]
             hi = +np.inf if (reflect_dim[1] is None) else reflect_dim[1]
-            idx = (points[ii, :] < lo) | (hi < points[ii, :])
-            result[idx] = 0.0
+            outside = outside | (points[ii, :] < lo) | (hi < points[ii, :])
 
+        # only after the reflections in all dimensions are included
+        result[outside] = 0.0
         result = result / norm
         return result
 
-- 
2.43.0


From f3fc73c657332e429b5fafc7b55b219bc9a4a24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 37/61] fix: minmax returns the previous extrema when no data
 is positive

---
 kalepy/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index fd30c5e..67390f4 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -379,13 +379,16 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
     if limit is not None:
         assert len(limit) == 2, "`limit` must have length 2."
 
+    if positive:
+        data = np.asarray(data)
+        data = data[data > 0.0]
+
     # If there are no elements (left), return `prev` (`None` if not provided)
     if np.size(data) == 0:
         return prev
 
     # Find extrema
-    idx = (data > 0.0) if positive else slice(None)
-    minmax = np.array([np.min(data[idx]), np.max(data[idx])])
+    minmax = np.array([np.min(data), np.max(data)])
     # Integer extrema cannot hold the modified values
     if any(vv is not None for vv in [stretch, log_stretch, prev, limit]):
         minmax = minmax.astype(float)
-- 
2.43.0


From ebdb67dca399cd76eac513be1cb02d8041cfea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 38/61] fix: KDE.from_hist accepts arrays of bandwidths

---
 kalepy/kde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index aaa4be1..4c5ed75 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -437,7 +437,7 @@ class KDE:
             # Normalize into a pdf
             hist = hist / (hist.sum() * dx)
 
-            if bandwidth == 'bin width':
+            if isinstance(bandwidth, str) and (bandwidth == 'bin width'):
                 bandwidth = dx
 
             return KDE(
@@ -472,7 +472,7 @@ class KDE:
             points = np.meshgrid(*centers, indexing='ij')
             points = [_.flatten() for _ in points]
 
-            if bandwidth == 'bin width':
+            if isinstance(bandwidth, str) and (bandwidth == 'bin width'):
                 bandwidth = dxs
 
             return KDE(
-- 
2.43.0


From ca4da19c559a538a90b291e912cc5af8b306d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 39/61] fix: hist1d without joints draws integer histograms

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 987f0aa..16320be 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1802,7 +1802,7 @@ def draw_hist1d(ax, edges, hist, renormalize=False, nonzero=False, positive=Fals
 
         outs = []
         for zz in [xval, yval]:
-            zz = np.atleast_2d(zz).T
+            zz = np.atleast_2d(zz).T.astype(float)
             zz = np.reshape(zz, [half, 2], order='C')
             zz = np.pad(zz, [[0, 0], [0, 1]], constant_values=np.nan)
             zz = zz.reshape(size + half)
-- 
2.43.0


From 1cf8524f9a207a267e20a16fd5c525581d7e28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 40/61] fix: accept histograms given as lists in KDE.from_hist

---
 kalepy/kde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 4c5ed75..6b7c444 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -427,6 +427,8 @@ class KDE:
 
         """
 
+        hist = np.asarray(hist)
+
         # For one dimension
         if utils.really1d(bins):
 
-- 
2.43.0


From 364b25f78643f4a1ec8986fe75f0b0870d5dfae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 41/61] fix: accept weights given as lists when guessing edges

---
 kalepy/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 67390f4..fd5e1a0 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1094,6 +1094,7 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
                 np.shape(weights), np.shape(data))
             raise ValueError(err)
 
+        weights = np.asarray(weights)
         num_eff = np.sum(weights)**2 / np.sum(weights**2)
 
     if (ndim is not None) and (num_eff > 100):
-- 
2.43.0


From 2c486b9416f02de1a4dae427e0a01e7c968f77c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 42/61] fix: draw scatter points of data given as lists

---
 kalepy/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 16320be..7e6bb5b 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1909,6 +1909,8 @@ def draw_scatter(ax, xx, yy, alpha=None, s=4, limit=None, **kwargs):
     #     fc = ax._get_lines.get_next_color()
     # kwargs.setdefault('facecolor', color)
     # kwargs.setdefault('edgecolor', 'none')
+    xx = np.asarray(xx)
+    yy = np.asarray(yy)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting scatter points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
-- 
2.43.0


From 85b59d455ae836f930f4e72efd97cc8a1f520956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 43/61] fix: Sample_Grid accepts masses and scalars given as
 lists or integers

---
 kalepy/sample.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 51fbac3..288f029 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -81,6 +81,11 @@ class Sample_Grid:
             err = "Shape of `mass` ({}) inconsistent with shape of edges ({})!".format(np.shape(mass), shape_edges)
             raise ValueError(err)
 
+        if mass is not None:
+            mass = np.asarray(mass)
+        if scalar_mass is not None:
+            scalar_mass = np.asarray(scalar_mass, dtype=float)
+
         self._edges = edges
         self._dens = dens
         self._mass = mass
-- 
2.43.0


From 9285bbbfc3a8f66f1e20800162cb066a8e2f6e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 44/61] fix: default extrema of an infinite kernel lie outside
 the data also for few effective data points

---
 kalepy/kde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 6b7c444..3c2140b 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -244,7 +244,8 @@ class KDE:
             out = (1.0 + _NUM_PAD)
         # If infinite kernel, how many standard-deviations can we expect values to lie at
         else:
-            out = sp.stats.norm.ppf(1.0 - 1.0/neff)
+            # The limits must lie outside of the data, no matter how few points there (effectively) are
+            out = sp.stats.norm.ppf(1.0 - 1.0/max(neff, 3.0))
             # Extra to be double sure...
             out *= 1.2
 
-- 
2.43.0


From 05a5015a8585fd0aa795e9692a9ebfa41850d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 45/61] fix: parse_edges overrides non-finite limits, as it
 says, by the extent of the finite data

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index fd5e1a0..42ce527 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1066,7 +1066,8 @@ def _get_edges_1d(edges, data, extrema, ndim, nmin, nmax, pad, weights=None, ref
             np.shape(edges))
         raise ValueError(err)
 
-    _num_bins, bin_width, _span = _guess_edges(
+    # NOTE: non-finite `extrema` are overridden by the extent of the (finite) data
+    _num_bins, bin_width, extrema = _guess_edges(
         data, extrema=extrema, weights=weights,
         ndim=ndim, num_min=nmin, num_max=nmax, refine=refine, bw=bw)
 
-- 
2.43.0


From 88ac3a094895c9da5ebfc40d3ab4b7b33b83bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 46/61] fix: dist1d draws the density over the whole
 distribution when a number of bins is given

---
 kalepy/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 7e6bb5b..f8aaaac 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1345,7 +1345,9 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
             _alpha = alpha
 
         # Calculate KDE density distribution for the given parameter
-        xx, yy = kde.density(probability=probability, params=param, points=edges)
+        # (if only a number of bins is given, use the default points of the KDE)
+        points = edges if np.ndim(edges) > 0 else None
+        xx, yy = kde.density(probability=probability, params=param, points=points)
         # rescale by value of density
         yy = yy * density
         # Plot
-- 
2.43.0


From 815a558e17fcb161f70e49a3f99377c65df21a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 47/61] fix: a bandwidth may be a single value in an array, and
 a matrix given as lists

---
 kalepy/kde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 3c2140b..35d999c 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -703,8 +703,9 @@ class KDE:
         ndim = self.ndim
         bandwidth = np.zeros((ndim, ndim))
 
-        if len(np.atleast_1d(bw_input)) == 1:
-            _bw, method = self._compute_bandwidth(bw_input)
+        # A single value, whether or not it is given in an array (or list)
+        if np.size(bw_input) == 1:
+            _bw, method = self._compute_bandwidth(np.ravel(bw_input)[0])
             if not self._diagonal:
                 bandwidth[...] = _bw
             else:
@@ -720,7 +721,7 @@ class KDE:
             elif np.shape(bw_input) == (ndim, ndim):
                 for ii, jj in np.ndindex(ndim, ndim):
                     bandwidth[ii, jj], *_ = self._compute_bandwidth(
-                        bw_input[ii, jj], param=(ii, jj))
+                        bw_input[ii][jj], param=(ii, jj))
                 method = 'matrix'
             else:
                 err = "`bandwidth` must have shape (1,), (N,) or (N,N,) for `N` dimensions!"
-- 
2.43.0


From a414d3a2e09198976d3008ead012adfb7eb9ddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 48/61] fix: smoothed and upsampled histograms of integers are
 not rounded

---
 kalepy/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index f8aaaac..a7aef32 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1645,6 +1645,10 @@ def _prep_hist(edges, hist, smooth, upsample, pad):
     # Construct grid from center values
     xx, yy = np.meshgrid(xx, yy, indexing='ij')
 
+    # Interpolated and smoothed values of integers would otherwise be rounded to integers
+    if (upsample not in [None, False]) or (smooth not in [None, False]):
+        xx, yy, hist = [np.asarray(vv, dtype=float) for vv in [xx, yy, hist]]
+
     # Perform upsampling
     if (upsample not in [None, False]):
         import scipy as sp
-- 
2.43.0


From e33feb38ee2b4c31b893c654c5ad5702c2254b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 49/61] fix: integrals along a mixture of positive and negative
 axes

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 42ce527..b7f759b 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -848,7 +848,8 @@ def trapz_nd(data, edges, axis=None):
     else:
         axis = np.atleast_1d(axis)
 
-    axis = sorted(axis)[::-1]
+    # Integrate over the last axes first, so that the earlier ones keep their place
+    axis = sorted([ii + ndim if ii < 0 else ii for ii in axis])[::-1]
     tot = np.array(data)
     for ii in axis:
         xx = edges[ii]
-- 
2.43.0


From 122f801773f849bad9ea2c15186b2740d4b2dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 50/61] fix: samples of nearly flat densities are not displaced
 by rounding

---
 kalepy/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 288f029..0082b10 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -546,8 +546,9 @@ def _intrabin_linear_interp(edge, wid, loc, bidx, grad):
     # calculate `y1` to ensure the CDF is unitary
     y1 = 1.0 - grad[sel] / 2.0
     # invert the CDF (``F(x) = y1*x + grad * x^2 / 2``) to sample from PDF (still on [0.0, to 1.0])
-    vals[sel] = 2 * loc[sel] * grad[sel] + y1 ** 2
-    vals[sel] = (np.sqrt(vals[sel]) - y1) / grad[sel]
+    #     using the form of the solution which does not suffer from cancellation for small gradients
+    root = np.sqrt(2 * loc[sel] * grad[sel] + y1 ** 2) + y1
+    vals[sel] = 2 * loc[sel] / np.where(root > 0.0, root, 1.0)
     # convert [0.0, 1.0] domain to the location and width of each bin
     vals = edge[bidx] + bw * vals
 
-- 
2.43.0


From f66c39d778be7da53758a5d50c8aae1cb0aa102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 51/61] fix: hist2d with mask_below=True excludes bins with
 less than the weight of a point, whatever their size

---
 kalepy/plot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index a7aef32..441b365 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1780,12 +1780,17 @@ def hist2d(data, edges=None, ax=None, weights=None, mask_below=False, **kwargs):
     if ax is None:
         ax = plt.gca()
 
-    if mask_below is True:
-        mask_below = 0.9 / len(data[0])
-
     # Calculate histogram
     edges = utils.parse_edges(data, edges=edges)
     hist, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
+
+    # Exclude bins with less than the average weight of a data point, whatever the sizes of the bins
+    if mask_below is True:
+        mass, *_ = np.histogram2d(*data, bins=edges, weights=weights)
+        ave = 1.0 if (weights is None) else np.mean(weights)
+        hist = np.ma.masked_where(mass < 0.9 * ave, hist)
+        mask_below = False
+
     # Draw
     rv = draw_hist2d(ax, edges, hist, mask_below=mask_below, **kwargs)
     return rv
-- 
2.43.0


From 8ddf40b20a394498cff4b54ef5d272566849d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 52/61] fix: isjagged accepts jagged arrays

---
 kalepy/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index b7f759b..bf6c816 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -596,10 +596,17 @@ def flatlen(arr):
 def isjagged(arr):
     """Test if the given array is jagged.
     """
-    # if np.isscalar(arr) or (np.size(arr) == len(flatten(arr))):
-    if np.isscalar(arr) or (np.size(arr) == flatlen(arr)):
+    if np.isscalar(arr):
         return False
-    return True
+
+    # `numpy` only makes an array of objects from a jagged argument when it is asked to
+    try:
+        arr = np.asarray(arr, dtype=object)
+    except ValueError:
+        # sub-arrays which cannot be combined, i.e. with different shapes
+        return True
+
+    return any(np.iterable(vv) and not np.isscalar(vv) for vv in arr.flat)
 
 
 def isinteger(val, iterable=True):
-- 
2.43.0


From ccf41fdd9ae2918fdce3b8b6186dc2e914526abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 53/61] fix: quantiles and confidence reject weights that do
 not match the data

---
 kalepy/plot.py  | 3 +++
 kalepy/utils.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 441b365..9d976b4 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1115,6 +1115,9 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         data = np.sort(data)
         cdf = np.arange(data.size) / (data.size - 1)
     else:
+        if np.size(weights) != np.size(data):
+            raise ValueError("Shape of `weights` ({}) does not match `data` ({})!".format(
+                np.shape(weights), np.shape(data)))
         idx = np.argsort(data)
         data = np.asarray(data)[idx]
         weights = np.asarray(weights)[idx]
diff --git a/kalepy/utils.py b/kalepy/utils.py
index bf6c816..0d6c89b 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -520,6 +520,9 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     if weights is None:
         weights = np.ones_like(values)
     weights = np.array(weights)
+    if weights.size != values.size:
+        raise ValueError("Shape of `weights` ({}) does not match `values` ({})!".format(
+            np.shape(weights), np.shape(values)))
     assert np.all(percs >= 0.0) and np.all(percs <= 1.0), 'percentiles must be in [0, 1]'
 
     if not values_sorted:
-- 
2.43.0


From 88ebebcff23308c5ffe8b0fda962f129b327f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 54/61] fix: flatten handles scalars next to lists

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 0d6c89b..42c83b7 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -583,7 +583,7 @@ def flatten(arr):
         return arr
 
     # Flatten each component and combine recursively
-    return np.concatenate([flatten(aa) for aa in arr])
+    return np.concatenate([np.atleast_1d(flatten(aa)) for aa in arr])
 
 
 def flatlen(arr):
-- 
2.43.0


From ffaeb643d46265cd3a0009ad21c5b89bcb3c1f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 55/61] fix: jshape of arrays with different shapes

---
 kalepy/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 42c83b7..a38e645 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -642,7 +642,15 @@ def isinteger(val, iterable=True):
 def jshape(arr, level=0, printout=False, prepend="", indent="  "):
     """Print the complete shape (even if jagged) of the given array.
     """
-    arr = np.asarray(arr, dtype=object)
+    try:
+        arr = np.asarray(arr, dtype=object)
+    except ValueError:
+        # sub-arrays of different shapes, which `numpy` tries to combine
+        subs = list(arr)
+        arr = np.empty(len(subs), dtype=object)
+        for ii, ss in enumerate(subs):
+            arr[ii] = ss
+
     if printout:
         print(prepend + indent*level + str(np.shape(arr)))
 
-- 
2.43.0


From 1ea247d07d960392432894dbe03a260c6e9e8cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 56/61] fix: averages and standard deviations of weighted data
 in stats_str

---
 kalepy/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index a38e645..5b0de6b 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -793,13 +793,15 @@ def stats_str(data, percs=[0.0, 0.16, 0.50, 0.84, 1.00], ave=False, std=False, w
 
     # Add average
     if ave:
-        out += "ave = " + form.format(np.average(data))
+        out += "ave = " + form.format(np.average(data, weights=weights))
         if std or percs_flag:
             out += ", "
 
     # Add standard-deviation
     if std:
-        out += "std = " + form.format(np.std(data))
+        std = np.average(data, weights=weights)
+        std = np.sqrt(np.average((data - std)**2, weights=weights))
+        out += "std = " + form.format(std)
         if percs_flag:
             out += ", "
 
-- 
2.43.0


From e6379476165e4ba3747bd8725843905116ca4634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 57/61] fix: percentiles of integers are not truncated in
 stats_str

---
 kalepy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 5b0de6b..0bf7847 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -807,7 +807,10 @@ def stats_str(data, percs=[0.0, 0.16, 0.50, 0.84, 1.00], ave=False, std=False, w
 
     # Add percentiles
     if percs_flag:
-        tiles = quantiles(data, percs, weights=weights).astype(data.dtype)
+        tiles = quantiles(data, percs, weights=weights)
+        # formats for integers only accept integers
+        if format.endswith('d'):
+            tiles = tiles.astype(int)
         out += "(" + ", ".join(form.format(tt) for tt in tiles) + ")"
         out += ", for (" + ", ".join("{:.0f}%".format(100*pp) for pp in percs) + ")"
 
-- 
2.43.0


From ccf6a6539e131861a3fb4ea4ee81023cfbb9ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 58/61] fix: stats_str without percentiles

---
 kalepy/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 0bf7847..4504f7b 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -774,11 +774,10 @@ def stats_str(data, percs=[0.0, 0.16, 0.50, 0.84, 1.00], ave=False, std=False, w
     if log:
         data = np.log10(data)
 
-    percs = np.atleast_1d(percs)
-
     percs_flag = False
-    if (percs is not None) and len(percs):
-        percs_flag = True
+    if percs is not None:
+        percs = np.atleast_1d(percs)
+        percs_flag = (len(percs) > 0)
 
     out = ""
 
-- 
2.43.0


From 90653f031fe9375c1e6d82eb198c65ff65a3776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 59/61] fix: really1d accepts elements that are jagged
 themselves

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 4504f7b..16f93fa 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -569,7 +569,7 @@ def really1d(arr):
     if len(arr) == 0:
         return True
     # Each element must be a scalar
-    if np.any([np.shape(tt) != () for tt in arr]):
+    if any(np.iterable(tt) and not np.isscalar(tt) for tt in arr):
         return False
 
     return True
-- 
2.43.0


From bddc1742d191de84f3a04ce1c995c24d09a8fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 60/61] fix: limits given to a corner plot are not modified,
 and can be shared by all parameters

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 9d976b4..9c77102 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -247,7 +247,7 @@ class Corner:
         # If axes limits are given, set axes to them
         if limits is not None:
             limit_flag = False
-            _set_corner_axes_extrema(self.axes, limits, rotate)
+            limits = list(_set_corner_axes_extrema(self.axes, limits, rotate))
         # Otherwise, prepare to calculate limits during plotting
         else:
             limits = [None] * size
-- 
2.43.0


From a92b44fe12a3c996b17865b30cce2132cf4cb3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 61/61] fix: position and location given to the legend of a
 corner plot are used

---
 kalepy/plot.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 9c77102..65e2c89 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -777,24 +777,28 @@ class Corner:
                 size = self.size
                 if size in [2, 3, 4]:
                     index = (0, -1)
-                    loc = 'lower left'
+                    _loc = 'lower left'
                 elif size == 1:
                     index = (0, 0)
-                    loc = 'upper right'
+                    _loc = 'upper right'
                 elif size % 2 == 0:
                     index = size // 2
                     index = (1, index)
-                    loc = 'lower left'
+                    _loc = 'lower left'
                 else:
                     index = (size // 2) + 1
-                    loc = 'lower left'
+                    _loc = 'lower left'
                     index = (size-index-1, index)
 
+                if loc is None:
+                    loc = _loc
+
             bbox = self.axes[index].get_position()
             bbox = (bbox.x0, bbox.y0)
-            kwargs['bbox_to_anchor'] = bbox
             kwargs.setdefault('bbox_transform', fig.transFigure)
 
+        kwargs['bbox_to_anchor'] = bbox
+
         # Set other defaults
         leg = fig.legend(handles, labels, fancybox=fancybox,
                          borderaxespad=borderaxespad, loc=loc, **kwargs)
-- 
2.43.0

