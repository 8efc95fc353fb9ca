From 903b2b73e05514c18dd00f4c9a197ebbfe72487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 01/38] fix: Grid.vorticity_divergence raised NameError
 (missing self)

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 315f60f..229d739 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -268,7 +268,7 @@ class Grid:
         Returns:
             Tuple of gridded (vorticity, divergence) fields.
         """
-        vort, div = vorticity_divergence_spectral(u, v)
+        vort, div = self.vorticity_divergence_spectral(u, v)
         return self.to_grid(vort), self.to_grid(div)
 
     def vorticity_divergence_spectral(self, u, v):
-- 
2.43.0


From 27e533edca451e3d9367a5cb9961369176931b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 02/38] fix: filter_by_wavenumber used scipy.signal.hann, which
 SciPy removed

---
 src/barotropic/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0e3e01c..e329b83 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -199,7 +199,7 @@ def filter_by_wavenumber(field, wavenumber):
     # the Hann window width is smaller than 4 gridpoints making it impossible
     # to adequately represent the window on the grid.
     wavenumber = np.clip(wavenumber, 1., nlon / 2)
-    # scipy.signal.window.hann takes the full width of the window in gridpoints
+    # scipy.signal.windows.hann takes the full width of the window in gridpoints
     # as its argument. nlon / wavenumber is half the width of the window.  To
     # speed up computation, only consider odd window widths which can be
     # properly centered on a gridpoint.
@@ -216,7 +216,7 @@ def filter_by_wavenumber(field, wavenumber):
             convs.append(np.zeros_like(field))
             continue
         # Obtain the normalized Hann window for the current width
-        hann = scipy.signal.hann(width)
+        hann = scipy.signal.windows.hann(width)
         hann = hann / np.sum(hann)
         # Apply window along the zonal axis
         convs.append(scipy.signal.convolve2d(field, hann[None,:], mode="same", boundary="wrap"))
-- 
2.43.0


From 5f0ac9595a2c6f7c7fe2ea42f1b0cfd66e3c6a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 03/38] fix: State.add_wind with a (u, v) tuple dropped the
 state's own wind

---
 src/barotropic/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 628d87c..90cd5b5 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -113,6 +113,8 @@ class State:
             u, v = other
             assert self.grid.shape == u.shape
             assert self.grid.shape == v.shape
+            u = self.u + u
+            v = self.v + v
         return State.from_wind(self.grid, self.time, u, v)
 
     def add_vorticity(self, other):
-- 
2.43.0


From 2a9b71d3a548475fedc9956b6f59cd8fa16b4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 04/38] fix: dominant_wavenumber_fourier ignored the lower end
 of wavenumber_range

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index e329b83..bfe55f0 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -116,7 +116,7 @@ def dominant_wavenumber_fourier(field, grid, smooth=("boxcar", 10), wavenumber_r
     # Compute Fourier power spectrum and determine wavenumber with maximum
     # power in the specified wavenumber range
     power = np.abs(np.fft.rfft(field, axis=_ZONAL)) ** 2
-    k_dom = np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
+    k_dom = k_min + np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
     # Apply smoothing if desired
     return k_dom if smooth is None else grid.filter_meridional(k_dom, *smooth)
 
-- 
2.43.0


From 75d8bb15bcffffe833f80aac6f8a1e1d16bacc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 05/38] fix: envelope and wavelet diagnostics lost a column for
 odd numbers of longitudes

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index bfe55f0..94b2ed6 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -26,7 +26,7 @@ def _restrict_fourier_zonal(field, kmin, kmax):
     xfft = np.fft.rfft(field, axis=_ZONAL)
     xfft[:,      :kmin] = 0.
     xfft[:,kmax+1:    ] = 0.
-    return np.fft.irfft(xfft, axis=_ZONAL)
+    return np.fft.irfft(xfft, n=field.shape[_ZONAL], axis=_ZONAL)
 
 
 def fawa(pv_or_state, grid=None, levels=None, interpolate=True, quad="sptrapz"):
-- 
2.43.0


From ca9edf64c3d246e8bac5df54442881be6be76ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 06/38] fix: extract_ks_waveguides returned NaN boundary south
 of -inf wavenumber

---
 src/barotropic/diagnostics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 94b2ed6..720caca 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -352,7 +352,12 @@ def extract_ks_waveguides(ks_or_state, k, grid=None):
             active = False
         # Waveguide starts if ks exceeds k
         elif not active and ks_s > k:
-            start = lat_n if np.isinf(ks_s) else lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
+            if np.isinf(ks_s):
+                start = lat_n
+            elif np.isinf(ks_n):
+                start = lat_n + grid.dlat
+            else:
+                start = lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
             active = True
     # Last waveguide must end at south pole
     if active:
-- 
2.43.0


From f4a2f88226536d89b2e832041c9395ec6378ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 07/38] fix: equal grids could have different hashes and
 comparisons with other types raised

---
 src/barotropic/grid.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 229d739..9efbeec 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -1,3 +1,4 @@
+import math
 from numbers import Number
 import numpy as np
 import scipy.interpolate
@@ -84,15 +85,20 @@ class Grid:
         return formatting.grid_repr(self)
 
     def __eq__(self, other):
+        if not isinstance(other, Grid):
+            return NotImplemented
+        # Purely relative and symmetric tolerance for the planet parameters
         return (
             self.shape == other.shape
-            and np.isclose(self.rsphere, other.rsphere)
-            and np.isclose(self.omega, other.omega)
+            and math.isclose(self.rsphere, other.rsphere, rel_tol=1e-5)
+            and math.isclose(self.omega, other.omega, rel_tol=1e-5)
             and self._ntrunc == other._ntrunc
         )
 
     def __hash__(self):
-        return hash((self.shape, self.rsphere, self.omega, self._ntrunc))
+        # Planet parameters are only compared approximately so they cannot
+        # contribute to the hash (equal grids must have equal hashes)
+        return hash((self.shape, self._ntrunc))
 
     @property
     def shape(self):
-- 
2.43.0


From a35929fbdd533df55cbb690a30b9e34c8f14fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 08/38] fix: Grid.equivalent_latitude raised TypeError for
 scalar areas

---
 src/barotropic/grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 9efbeec..88b42f9 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -597,8 +597,7 @@ class Grid:
         # Calculate argument of arcsin
         sine = 1. - 0.5 * area / np.pi / self.rsphere**2
         # Make sure argument of arcsin is in [-1, 1]
-        sine[sine >=  1] =  1
-        sine[sine <= -1] = -1
+        sine = np.clip(sine, -1., 1.)
         # Equivalent latitude in degrees
         return np.rad2deg(np.arcsin(sine))
 
-- 
2.43.0


From 4be7db31a70ddf4ed629fb2a82c77dc950b47e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 09/38] fix: solve_poisson dropped the mean of the solution for
 non-zero op_add

---
 src/barotropic/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 88b42f9..a28438f 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -386,6 +386,9 @@ class Grid:
         """:py:meth:`solve_poisson` with spectral in- and output fields."""
         solution = np.zeros_like(rhs_spec)
         solution[1:] = -rhs_spec[1:] / (self._laplacian_eigenvalues[1:] + op_add)
+        # Without op_add the mean of the solution is arbitrary (set to 0)
+        if op_add != 0.:
+            solution[0] = -rhs_spec[0] / op_add
         return solution
 
     def solve_diffusion(self, field_grid, coeff, dt, order=1):
-- 
2.43.0


From c85e2815b88535c01c22701cf01a03bf4ccce2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 10/38] fix: BarotropicModel.run returned a plain list when no
 step was required

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e480e8e..e2d0a96 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -71,7 +71,7 @@ class BarotropicModel:
 
         """
         if tend < state_init.time:
-            return state_init, [state_init]
+            return state_init, StateList([state_init])
         # First integration with Euler forward step (multistep leapfrog scheme
         # requires initialization)
         state = self.euler(state_init, dt)
-- 
2.43.0


From d0fc492be5d35b3a86807ac95327e428716f5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 11/38] fix: save_every schedule of BarotropicModel.run assumed
 a start time of 0

---
 src/barotropic/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e2d0a96..c2d9888 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -78,7 +78,8 @@ class BarotropicModel:
         state, state_new = state_init, state
         # Save model states during the integration
         states = [state]
-        t_save = save_every
+        if save_every > 0:
+            t_save = state.time + save_every
         # Integrate one step further than requested so Robert-Asselin filter is
         # applied to model state at the end
         while state.time < tend:
-- 
2.43.0


From 45bca9545dafe3a2170d78f44b54c1ca4f29307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 12/38] fix: Grid lost a row or column when 360/resolution is
 not exact in floating point

---
 src/barotropic/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index a28438f..30d11c5 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -50,8 +50,8 @@ class Grid:
         # Setup longitude and latitude grid. Make sure longitude 0° is not
         # repeated and that both latitudes 90° and -90° exist. Latitudes start
         # at the North pole, which is the convention used by pyspharm.
-        self.nlon = int(360. / resolution)
-        self.nlat = int(180. / resolution) + 1
+        self.nlon = round(360. / resolution)
+        self.nlat = round(180. / resolution) + 1
         self.lon = np.linspace( 0., 360., self.nlon, endpoint=False)
         self.lat = np.linspace(90., -90., self.nlat, endpoint=True)
         self.lon2, self.lat2 = np.meshgrid(self.lon, self.lat)
-- 
2.43.0


From bce72e8123e4a3d833a22f145fb2af63d02b2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 13/38] =?UTF-8?q?fix:=20GaussianMountain=20was=20cut=20off?=
 =?UTF-8?q?=20at=20the=200=C2=B0=20meridian?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/barotropic/rhs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/rhs.py b/src/barotropic/rhs.py
index 1611490..dd35f20 100644
--- a/src/barotropic/rhs.py
+++ b/src/barotropic/rhs.py
@@ -210,9 +210,11 @@ class GaussianMountain(Orography):
         self._stdev_lat_sq = stdev[1] ** 2
 
     def orography(self, grid):
+        # Zonal distance from the center, periodic across the 0° meridian
+        dist_lon = (grid.lon2 - self._center_lon + 180.) % 360. - 180.
         return (self._height
                 # Decaying in zonal direction
-                * ( np.exp(-0.5 * (grid.lon2 - self._center_lon)**2 / self._stdev_lon_sq) )
+                * ( np.exp(-0.5 * dist_lon**2 / self._stdev_lon_sq) )
                 # Decaying in meridional direction
                 * ( np.exp(-0.5 * (grid.lat2 - self._center_lat)**2 / self._stdev_lat_sq) ))
 
-- 
2.43.0


From 64e1fb70ba32ab443291a4903b4b38721b30d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 14/38] fix: copying and pickling a StateList ended in infinite
 recursion

---
 src/barotropic/state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 90cd5b5..ee5fff8 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -464,6 +464,11 @@ class StateList(collections.abc.Sequence):
         # from the invocation on every State in the StateList. Separate
         # attributes and methods by checking if the (unbound) method exists on
         # the State class.
+        # The container's own data and special methods are never broadcast (these
+        # end up here when looked up on an uninitialized object, e.g. in copy
+        # and pickle)
+        if name == "_states" or (name.startswith("__") and name.endswith("__")):
+            raise AttributeError(f"'StateList' object has no attribute '{name}'")
         attr = getattr(State, name, None)
         if callable(attr):
             return functools.partial(self.map, attr)
-- 
2.43.0


From 3edd723c6d6167455ec07015658bf47e2a32aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 15/38] fix: repr of an empty GridRegion raised IndexError

---
 src/barotropic/formatting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/formatting.py b/src/barotropic/formatting.py
index 98ed87c..25c8884 100644
--- a/src/barotropic/formatting.py
+++ b/src/barotropic/formatting.py
@@ -50,9 +50,12 @@ def grid_region_repr(region):
     out[4] += " EQ"
     out[8] += " 90°S"
     out.append("    0°E              180°E")
+    # Empty selections have no extent
+    lat = region.lat[[-1,0]] if region.lat.size > 0 else (np.nan, np.nan)
+    lon = region.lon[[0,-1]] if region.lon.size > 0 else (np.nan, np.nan)
     return "\n".join([
-        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*region.lat[[-1,0]], region.shape[0]),
-        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*region.lon[[0,-1]], region.shape[1]),
+        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*lat, region.shape[0]),
+        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*lon, region.shape[1]),
         "", *out, "",
         "of {}".format(repr(region._grid))
     ])
-- 
2.43.0


From e9606c73c5ebd516d61e7168bbae4f7db4013dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 16/38] =?UTF-8?q?fix:=20plot.roll=5Flon=20missed=20the=20m?=
 =?UTF-8?q?eridian=20at=200=C2=B0=20as=20the=20nearest=20one=20to=20center?=
 =?UTF-8?q?s=20just=20below=20360=C2=B0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/barotropic/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 2957e88..c40ebad 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -75,7 +75,8 @@ def roll_lon(lon, center=180):
     """
     center = center % 360
     cur_mid = lon.size // 2
-    new_mid = np.argmin(np.abs(lon - center))
+    # Nearest longitude, considering the periodic boundary
+    new_mid = np.argmin(np.abs((lon - center + 180) % 360 - 180))
     shift = cur_mid - new_mid
     return partial(np.roll, shift=shift, axis=_ZONAL), partial(configure_lon_x, offset=lon[shift])
 
-- 
2.43.0


From 054011eb9c0b4cc96666893a956207aeb4035bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 17/38] fix: solve_diffusion under- and overflowed in single
 precision for high orders

---
 src/barotropic/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 30d11c5..b2165cb 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -416,8 +416,10 @@ class Grid:
 
     def solve_diffusion_spectral(self, field_spectral, coeff, dt, order=1):
         """:py:meth:`solve_diffusion` with spectral in- and output fields."""
-        eigenvalues_op = self._laplacian_eigenvalues ** order
-        return field_spectral / (1. + dt * coeff * eigenvalues_op)
+        # Powers of the eigenvalues under- and overflow in single precision
+        eigenvalues_op = self._laplacian_eigenvalues.real.astype(float) ** order
+        solution = field_spectral / (1. + dt * coeff * eigenvalues_op)
+        return solution.astype(field_spectral.dtype)
 
     # Area-weighted operators
 
-- 
2.43.0


From 78d1f173d039a91aec8d5d10ccab56ca675975b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 18/38] fix: from_dataset misplaced data of shifted coordinates
 and refused single-precision ones

---
 src/barotropic/io.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9188ad8..20345e8 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -264,11 +264,14 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     lon = ds.coords[var_map["lon"]]
     assert lon.ndim == 1, "lon coordinate must be one-dimensional"
     assert lon.size > 0, "lon coordinate is empty"
-    dlons = np.diff(lon.values)
-    dlon = dlons[0]
-    assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
-    assert dlon > 0, "lon coordinate must be increasing (W to E)"
-    assert np.isclose(lon[-1] - lon[0], 360. - dlon), "lon coordinate irregular at periodic boundary"
+    # Compare to the expected coordinate, allow for single-precision rounding
+    dlon = 360. / lon.size
+    lons = lon.values.astype(float)
+    assert np.allclose(lons, lons[0] + dlon * np.arange(lon.size), rtol=0., atol=1.e-4), \
+            "lon coordinate is not regular, increasing (W to E) and periodic"
+    # Columns of Grid start at 0°, roll fields that start at another meridian
+    lon_shift = round(lons[0] / dlon)
+    assert np.isclose(lons[0], lon_shift * dlon, rtol=0., atol=1.e-4), "lon coordinate does not contain 0°"
 
     # Verify latitude coordinate
     if var_map["lat"] is None:
@@ -277,16 +280,19 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert lat.ndim == 1, "lat coordinate must be one-dimensional"
     assert lat.size > 0, "lat coordinate is empty"
     assert lat.size - 1 == lon.size // 2, f"grid of shape [{lat.size}, {lon.size}] is not regular"
-    dlats = np.diff(lat.values)
-    dlat = dlats[0]
-    assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
-    assert dlat < 0, "lat coordinate must be decreasing (N to S)"
-    assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
+    dlat = -180. / (lat.size - 1)
+    lats = lat.values.astype(float)
+    assert np.allclose(lats, 90. + dlat * np.arange(lat.size), rtol=0., atol=1.e-4), \
+            "lat coordinate is not regular, decreasing (N to S) and pole to pole"
+    assert np.isclose(dlat, -dlon), f"grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
 
     # Instanciate Grid that matches dataset coordinates
     grid_kwargs = {} if grid_kwargs is None else grid_kwargs
     grid = Grid(resolution=dlon, **grid_kwargs)
 
+    def as_field(da):
+        return np.roll(da.values, lon_shift, axis=-1)
+
     # Consider multiple options to construct states:
     # States from horizontal wind components
     if var_map["u"] is not None and var_map["v"] is not None:
@@ -296,18 +302,18 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         # Two fields required to initialize: proceed with DataArray of u for
         # data, and select matching v field during construction of the State
         def as_state(t, da):
-            u = da.values
+            u = as_field(da)
             # Select matching meridional wind field (dims_flatten assigned below)
-            v = ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }).values
+            v = as_field(ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }))
             return State.from_wind(grid, t, u, v)
     # States from relative vorticity
     elif var_map["vo"] is not None:
         data = ds[var_map["vo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State.from_vorticity(grid, t, da.values)
+        as_state = lambda t, da: State.from_vorticity(grid, t, as_field(da))
     # States from absolute vorticity
     elif var_map["avo"] is not None:
         data = ds[var_map["avo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State(grid, t, pv=da.values)
+        as_state = lambda t, da: State(grid, t, pv=as_field(da))
     else:
         raise ValueError(
             "no fields for state construction detected, please specify"
-- 
2.43.0


From f8ee7c8daee458caa1ad5fc4f75bc0a6ea8e86a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 19/38] fix: from_dataset failed for repeated or missing
 coordinate labels

---
 src/barotropic/io.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 20345e8..73f5f43 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -301,19 +301,19 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         data = ds[var_map["u"]]
         # Two fields required to initialize: proceed with DataArray of u for
         # data, and select matching v field during construction of the State
-        def as_state(t, da):
+        def as_state(t, da, selection):
             u = as_field(da)
-            # Select matching meridional wind field (dims_flatten assigned below)
-            v = as_field(ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }))
+            # Select matching meridional wind field
+            v = as_field(ds[var_map["v"]].isel(selection))
             return State.from_wind(grid, t, u, v)
     # States from relative vorticity
     elif var_map["vo"] is not None:
         data = ds[var_map["vo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State.from_vorticity(grid, t, as_field(da))
+        as_state = lambda t, da, _: State.from_vorticity(grid, t, as_field(da))
     # States from absolute vorticity
     elif var_map["avo"] is not None:
         data = ds[var_map["avo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State(grid, t, pv=as_field(da))
+        as_state = lambda t, da, _: State(grid, t, pv=as_field(da))
     else:
         raise ValueError(
             "no fields for state construction detected, please specify"
@@ -326,15 +326,17 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     # Only 1-dimensional StateList output supported, so all dimensions other
     # than lon and lat are flattened
     dims_flatten = data.dims[:-2]
-    dims_values = [data.coords[dim].values for dim in dims_flatten]
+    # Select by index, since labels are optional and not necessarily unique
+    dims_indices = [range(data.sizes[dim]) for dim in dims_flatten]
 
     states = []
     # Because itertools.product returns an empty tuple when called without any
-    # arguments (here: when dims_values is empty), this also covers the case of
+    # arguments (here: when dims_indices is empty), this also covers the case of
     # single field input with no flattened dimensions
-    for selection in itertools.product(*dims_values):
+    for indices in itertools.product(*dims_indices):
         # Extract the current lon-lat field
-        field = data.sel(dict(zip(dims_flatten, selection)))
+        selection = dict(zip(dims_flatten, indices))
+        field = data.isel(selection)
         # Try to use time value from coordinates if possible, otherwise fall
         # back to fill value
         time = time_fill
@@ -348,7 +350,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
         # Create State and add to collection
-        states.append(as_state(time, field))
+        states.append(as_state(time, field, selection))
 
     return StateList(states)
 
-- 
2.43.0


From 0b66817af5b9c1c571b04e43ca3353345f4a17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 20/38] fix: from_dataset created states with array-valued
 numeric times

---
 src/barotropic/io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 73f5f43..ff165a5 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -349,6 +349,12 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 # timezone info for now
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
+            # Time intervals are given to State as a number in seconds
+            elif isinstance(time, np.timedelta64):
+                time = float(time / np.timedelta64(1, "s"))
+            # Turn 0-dimensional arrays into regular scalars
+            else:
+                time = time.item()
         # Create State and add to collection
         states.append(as_state(time, field, selection))
 
-- 
2.43.0


From 30d2b57190495919bfaa7580024e20901f5267da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 21/38] fix: window filters truncated the filtered values of
 integer and boolean fields

---
 src/barotropic/grid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index b2165cb..1b12177 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -745,6 +745,9 @@ class Grid:
         """
         if width is not None:
             window = self.get_filter_window(window, width)
+        # Convolution returns the dtype of its input, avoid truncation to integers
+        if not np.issubdtype(field.dtype, np.inexact):
+            field = field.astype(float)
         # Use symmetrical boundary condition
         if field.ndim == 1:
             assert field.size == self.nlat
@@ -773,6 +776,9 @@ class Grid:
         """
         if width is not None:
             window = self.get_filter_window(window, width)
+        # Convolution returns the dtype of its input, avoid truncation to integers
+        if not np.issubdtype(field.dtype, np.inexact):
+            field = field.astype(float)
         # Use periodic boundary condition (only makes sense if 
         if field.ndim == 1:
             assert field.size == self.nlon
-- 
2.43.0


From cd79738f7354cb5cd58b5bcfdeb597e77bcd6ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 22/38] fix: region selections missed coordinates on their
 bounds because of rounding

---
 src/barotropic/grid.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 1b12177..45adc1e 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -791,6 +791,12 @@ class Grid:
 
 
 
+def _less_equal(a, b):
+    # The coordinates of the grid carry rounding errors which must not exclude
+    # values that coincide with the (inclusive) bounds of a selection
+    return np.less_equal(a, b) | np.isclose(a, b, rtol=0., atol=1e-8)
+
+
 class GridRegionIndexer:
 
     def __init__(self, grid):
@@ -839,11 +845,11 @@ class GridRegionIndexer:
         if lo is None and hi is None:
             return indices
         elif lo is None:
-            return indices[self._grid.lat <= hi]
+            return indices[_less_equal(self._grid.lat, hi)]
         elif hi is None:
-            return indices[lo <= self._grid.lat]
+            return indices[_less_equal(lo, self._grid.lat)]
         else:
-            return indices[(min(lo, hi) <= self._grid.lat) & (self._grid.lat <= max(lo, hi))]
+            return indices[_less_equal(min(lo, hi), self._grid.lat) & _less_equal(self._grid.lat, max(lo, hi))]
 
     def _get_lon_indices(self, slc):
         # Single-value selection still returns full array but value is checked
@@ -869,14 +875,14 @@ class GridRegionIndexer:
         if lo is None and hi is None:
             return indices
         elif lo is None:
-            return indices[self._grid.lon <= hi]
+            return indices[_less_equal(self._grid.lon, hi)]
         elif hi is None:
-            return indices[lo <= self._grid.lon]
+            return indices[_less_equal(lo, self._grid.lon)]
         elif hi < lo:
-            lo_mask = lo <= self._grid.lon
-            return np.roll(indices[(self._grid.lon <= hi) | lo_mask], np.count_nonzero(lo_mask))
+            lo_mask = _less_equal(lo, self._grid.lon)
+            return np.roll(indices[_less_equal(self._grid.lon, hi) | lo_mask], np.count_nonzero(lo_mask))
         else:
-            return indices[(lo <= self._grid.lon) & (self._grid.lon <= hi)]
+            return indices[_less_equal(lo, self._grid.lon) & _less_equal(self._grid.lon, hi)]
 
 
 
-- 
2.43.0


From 7e22c275ad657cd93d2b7165cacfc3f9ca84d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 23/38] fix: FALWA and FAWA of constant PV were NaN at the
 South Pole

---
 src/barotropic/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 45adc1e..0f227c6 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -692,6 +692,10 @@ class Grid:
         """
         assert 1 <= field.ndim <= 2
         assert len(pole_values) == 2
+        # The pole values take precedence, repeated latitudes at the poles
+        # would result in NaN (zero-length interpolation intervals)
+        inner = np.abs(lat) < 90.
+        lat, field = lat[inner], field[inner]
         pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))
         axis = -1    if field.ndim == 1 else MERIDIONAL
         x = np.pad(lat, pad_width=(1, 1), mode="constant", constant_values=(90., -90.))
-- 
2.43.0


From b4f54382ef9e411c7ced0b350e2700da121e0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 24/38] fix: zonalized profile was not monotonic for unordered
 levels of equal equivalent latitude

---
 src/barotropic/diagnostics.py | 3 ++-
 src/barotropic/grid.py        | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 720caca..91b1d4b 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -78,7 +78,8 @@ def falwa(pv_or_state, grid=None, levels=None, interpolate=True, quad="sptrapz")
     # to stabilize the computation (boxcounting does not interpolate the domain
     # of integration so being aligned with the gridbox boundaries helps)
     if quad == "boxcount":
-        interp = grid.interp1d_meridional(qq, yy, pole_values=(np.max(pv), np.min(pv)))
+        order = np.argsort(qq)
+        interp = grid.interp1d_meridional(np.asarray(qq)[order], yy[order], pole_values=(np.max(pv), np.min(pv)))
         yy = 0.5 * (grid.lat[:-1] + grid.lat[1:])
         qq = interp(yy)
     # Use formulation that integrates PV over areas north of PV
diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 0f227c6..76de7fc 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -668,8 +668,10 @@ class Grid:
         # latitudes and return the latitudes as well for reference
         if not interpolate:
             return q, y
-        # When interpolated, only return the contour values
-        return self.interpolate_meridional(q, y, pole_values=(q_max, q_min))
+        # When interpolated, only return the contour values. Go from low to
+        # high contours to stay monotonic where equivalent latitudes coincide.
+        order = np.argsort(q)
+        return self.interpolate_meridional(np.asarray(q)[order], y[order], pole_values=(q_max, q_min))
 
     # Interpolation
 
-- 
2.43.0


From 775ca91bfd885fda97261a3622c410c121284730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 25/38] fix: centre wind vectors of the summary plot like the
 other fields
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The vectors were drawn for a map centred at 180° regardless of center_lon.
---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index c40ebad..3a5dd49 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -178,7 +178,7 @@ def summary(state, figsize=(11, 7), hemisphere="both", center_lon=180, pv_cmap="
     fig.colorbar(pvc, ax=ax12)
     n_vectors = 13 if hemisphere == "both" else 21
     if not (np.linalg.norm(state.u) == 0. and np.linalg.norm(state.v) == 0.):
-        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, state.u, state.v, n_vectors))
+        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, roll(state.u), roll(state.v), n_vectors))
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("PV [$10^{-4} \\mathrm{s}^{-1}$] and wind vectors", loc="left")
-- 
2.43.0


From 31ec67a7db44fdf95a66425038b0a55d0995ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:05 +0000
Subject: [PATCH 26/38] fix: export empty iterables of states as empty dataset

An exhausted generator is truthy, so the check for empty input has to come
after the conversion to a StateList.
---
 src/barotropic/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index ff165a5..ecb28f7 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -65,14 +65,14 @@ def as_dataset(states, fields=("u", "v"), concat_dim="time"):
     """
     import xarray as xr
     from . import __version__
-    # Empty input
-    if not states:
-        return xr.Dataset()
     # Compatibility for single-state input
     if isinstance(states, State):
         states = [states]
     # Convert into state collection for accessors and basic integrity checks
     states = StateList(states)
+    # Empty input
+    if not states:
+        return xr.Dataset()
     # Extract basic coordinates
     coords = dict()
     coords["latitude"] = xr.DataArray(states.grid.lat, dims=["latitude"], attrs={
-- 
2.43.0


From d816964dd5972c5a56d2ed1505bde82bcc03548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 27/38] fix: accept any number of rows when thinning vectors

reduce_vectors documents ny as a number, but floating point values ended
up in the slice and raised a TypeError.
---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 3a5dd49..468d923 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -28,7 +28,7 @@ def reduce_vectors(x, y, u, v, ny):
     Returns:
         Tuple consisting of reduced **x**, **y**, **u** and **v**.
     """
-    spacing = max(y.shape[_MERIDIONAL] // ny, 1)
+    spacing = max(int(y.shape[_MERIDIONAL] // ny), 1)
     slicer = slice(spacing // 2, None, spacing), slice(spacing // 2, None, spacing)
     return x[slicer], y[slicer], u[slicer], v[slicer]
 
-- 
2.43.0


From 412308d79f34854d36ad8e36fe8618d724ce7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:26 +0000
Subject: [PATCH 28/38] fix: times before 0 were always formatted in seconds

The unit is chosen depending on the size of the number, which has to
disregard the sign.
---
 src/barotropic/formatting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/formatting.py b/src/barotropic/formatting.py
index 25c8884..ab9717b 100644
--- a/src/barotropic/formatting.py
+++ b/src/barotropic/formatting.py
@@ -15,11 +15,11 @@ def format_time(time):
     # Adjust unit depending on size of number
     if isinstance(time, Number):
         unit = "s"
-        if time > 120:
+        if abs(time) > 120:
             time, unit = time / 60, "min"
-        if time > 120:
+        if abs(time) > 120:
             time, unit = time / 60, "h"
-        if time > 240:
+        if abs(time) > 240:
             time, unit = time / 24, "d"
         return "t = {:.1f} {}".format(time, unit)
     # If time is not numeric assume it is datetime-like
-- 
2.43.0


From 03fdb81ea91173c20a230ba612745fd22866fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 29/38] fix: derivative_meridional wraps for small or unsigned
 integer fields

---
 src/barotropic/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 76de7fc..0c8e83d 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -9,6 +9,11 @@ from . import formatting
 from .constants import EARTH_RADIUS, EARTH_OMEGA, MERIDIONAL
 
 
+def _as_float(x):
+    """Convert integer fields to floating point, so differences cannot wrap."""
+    return x.astype(float) if x.dtype.kind in "biu" else x
+
+
 class Grid:
     """Regular lon-lat grid and operations for a spherical planet.
 
@@ -319,7 +324,7 @@ class Grid:
         the edges). Stencil coefficients were obtained from
         http://web.media.mit.edu/~crtaylor/calculator.html.
         """
-        f = np.asarray(f)
+        f = _as_float(np.asarray(f))
         assert f.ndim <= 2
         # Output has same shape as input
         out = np.zeros_like(f)
-- 
2.43.0


From 0533d33e7363bcf7d0e0aaef5927cd2917e21dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 30/38] fix: quad_meridional wraps for small or unsigned
 integer fields

---
 src/barotropic/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 0c8e83d..237fe8b 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -544,6 +544,9 @@ class Grid:
             # If no z-values are given, integrate everywhere
             if z is None:
                 z = np.ones_like(y)
+            # Differences of integer fields could wrap
+            y = _as_float(y)
+            z = _as_float(z)
             # Construct slicing tuple based on latitude axis (-2)
             js = slice(None,   -1), slice(None, None)
             je = slice(   1, None), slice(None, None)
-- 
2.43.0


From ff05413e37a1ced52d8cf6a8bb93ecaff87a2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 31/38] fix: Vorticity and divergence of unsigned integer winds
 are wrong

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 237fe8b..0a2d510 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -284,7 +284,7 @@ class Grid:
 
     def vorticity_divergence_spectral(self, u, v):
         """:py:meth:`vorticity_divergence` with spectral output fields."""
-        return self._spharm.getvrtdivspec(u, v, self._ntrunc)
+        return self._spharm.getvrtdivspec(_as_float(u), _as_float(v), self._ntrunc)
 
     # Derivatives and PDE solvers
 
-- 
2.43.0


From 969bdc6d66bd36c6c874b4b5f7e5e7a1841c9fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 32/38] fix: symmetric_levels wraps for small or unsigned
 integer fields

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 468d923..fd78630 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -95,7 +95,7 @@ def symmetric_levels(x, n=10, ext=None):
         Array of linearly spaced contour values.
     """
     if ext is None:
-        ext = max(abs(np.min(x)), abs(np.max(x)))
+        ext = max(abs(float(np.min(x))), abs(float(np.max(x))))
     if ext == 0.:
         return np.array([-1., 1.])
     return np.linspace(-ext, ext, n)
-- 
2.43.0


From b565e4ac1048ff02f99cdb0d025042b328a7ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 33/38] fix: extract_ks_waveguides wraps for unsigned integer
 profiles

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 91b1d4b..74663c9 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -337,7 +337,7 @@ def extract_ks_waveguides(ks_or_state, k, grid=None):
     # Convert stationary wavenumbers to "real" variant, so there is a proper
     # ordering (one could also square them, but then the linear interpolation
     # for the start/end latitudes is not as nice for the non-squared variants)
-    ks = np.real(ks) - np.imag(ks)
+    ks = (np.real(ks) - np.imag(ks)).astype(float)
     k  = np.real(k)  - np.imag(k)
     # There might be more than one waveguide
     waveguides = []
-- 
2.43.0


From 54042b6d7f583ea2463e87ceb26f76a0257f477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 34/38] fix: pole values were truncated in interpolations of
 integer profiles

---
 src/barotropic/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 0a2d510..f70333a 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -705,7 +705,8 @@ class Grid:
         # The pole values take precedence, repeated latitudes at the poles
         # would result in NaN (zero-length interpolation intervals)
         inner = np.abs(lat) < 90.
-        lat, field = lat[inner], field[inner]
+        # Integer fields cannot hold the pole values in general
+        lat, field = lat[inner], _as_float(field[inner])
         pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))
         axis = -1    if field.ndim == 1 else MERIDIONAL
         x = np.pad(lat, pad_width=(1, 1), mode="constant", constant_values=(90., -90.))
-- 
2.43.0


From 7be268d22f640a1b76f7dceda76a4828c0fcf519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 35/38] fix: range of small integer fields wrapped in the
 selection of contours

---
 src/barotropic/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index f70333a..c92cdf4 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -641,6 +641,7 @@ class Grid:
 
         Implements the zonalization procedure of Nakamura and Zhu (2010).
         """
+        field = _as_float(field)
         # Select contours for area computations
         q_min = np.min(field)
         q_max = np.max(field)
-- 
2.43.0


From 404a081efd4119f5c3656b1d793c594c79e24c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 36/38] fix: wave activity of small integer fields wrapped for
 integer levels

---
 src/barotropic/diagnostics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 74663c9..945eae9 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -74,12 +74,14 @@ def falwa(pv_or_state, grid=None, levels=None, interpolate=True, quad="sptrapz")
     grid, pv = _get_grid_vars(["pv"], grid, pv_or_state)
     # Compute zonalized background state of PV
     qq, yy = grid.zonalize(pv, levels=levels, interpolate=False, quad=quad)
+    # Differences of integer values could wrap
+    qq = np.asarray(qq, dtype=float)
     # Interpolate between gridpoints in case of the the boxcounting quadrature
     # to stabilize the computation (boxcounting does not interpolate the domain
     # of integration so being aligned with the gridbox boundaries helps)
     if quad == "boxcount":
         order = np.argsort(qq)
-        interp = grid.interp1d_meridional(np.asarray(qq)[order], yy[order], pole_values=(np.max(pv), np.min(pv)))
+        interp = grid.interp1d_meridional(qq[order], yy[order], pole_values=(np.max(pv), np.min(pv)))
         yy = 0.5 * (grid.lat[:-1] + grid.lat[1:])
         qq = interp(yy)
     # Use formulation that integrates PV over areas north of PV
-- 
2.43.0


From e1addee7be91bd80ec27f929bea9ee9406b10a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 37/38] fix: Grid.mean requires more of regions than the
 documented extract method

---
 src/barotropic/grid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index c92cdf4..86fcb99 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -468,13 +468,14 @@ class Grid:
             assert field.shape == self.shape
         elif field.shape == self.shape:
             field = region.extract(field)
-        else:
-            assert field.shape == region.shape
         # Determine area weights for mean calculation
-        area = self.gridpoint_area[:,None] if region is None else region.gridpoint_area[:,None]
+        area = np.broadcast_to(self.gridpoint_area[:,None], self.shape)
+        if region is not None:
+            area = region.extract(area)
+            assert field.shape == area.shape
         # Pick normalization depending on axis over which mean is taken
         if axis is None:
-            return (field * area).sum() / area.sum() / field.shape[1]
+            return (field * area).sum() / area.sum()
         elif axis == 0 or axis == -2 or axis == "meridional":
             return ((field * area).sum(axis=0) / area.sum(axis=0))
         elif axis == 1 or axis == -1 or axis == "zonal":
-- 
2.43.0


From 059057a118ec0c28ef57359b276642dec00b110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 38/38] fix: zonalize fails if the number of contours is a
 numpy integer

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 86fcb99..e6bd41b 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -657,7 +657,7 @@ class Grid:
         # case as it resembles the distribution of planetary PV. Omit min and
         # max contours as field >= min everywhere and field >= max most likely
         # only in a single point.
-        if isinstance(levels, int):
+        if isinstance(levels, (int, np.integer)):
             _ = 0.5 * np.pi * np.linspace(-1, 1, levels+2)[1:-1]
             q = 0.5 * ((q_max - q_min) * np.sin(_) + q_min + q_max)
         # Otherwise use the given contour values
-- 
2.43.0

