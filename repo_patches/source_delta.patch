From 078abdfcca567a6998c68fad08460d9aae948ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 01/19] fix: don't modify the pad_kwargs passed to the grid
 transformations

---
 src/harmonica/filters/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 5971e45..ee79464 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -71,8 +71,8 @@ def apply_filter(
     """
     if filter_kwargs is None:
         filter_kwargs = {}
-    if pad_kwargs is None:
-        pad_kwargs = {}
+    # Copy the pad_kwargs to avoid modifying the dictionary passed by the user
+    pad_kwargs = {} if pad_kwargs is None else dict(pad_kwargs)
     grid_sanity_checks(grid)
     dims = grid.dims
     # Need to remove non-dimensional coordinates before padding and FFT because
-- 
2.43.0


From 35111083c299ee448813131d1d7cf4f4eb5ffe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 02/19] fix: use the field angles in reduction_to_pole when the
 magnetization ones are None

---
 src/harmonica/_transformations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/harmonica/_transformations.py b/src/harmonica/_transformations.py
index 0e16cb6..e8500db 100644
--- a/src/harmonica/_transformations.py
+++ b/src/harmonica/_transformations.py
@@ -447,6 +447,11 @@ def reduction_to_pole(
     --------
     harmonica.filters.reduction_to_pole_kernel
     """
+    # Neglect remanent magnetization if its angles were not passed
+    if magnetization_inclination is None:
+        magnetization_inclination = inclination
+    if magnetization_declination is None:
+        magnetization_declination = declination
     return apply_filter(
         grid,
         reduction_to_pole_kernel,
-- 
2.43.0


From c3339b4e03d963bdea00c218ca9b45bb7d303b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 03/19] fix: allow layers of different types and shapes in
 isostatic_moho_airy

---
 src/harmonica/_isostasy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_isostasy.py b/src/harmonica/_isostasy.py
index 9538b96..0616655 100644
--- a/src/harmonica/_isostasy.py
+++ b/src/harmonica/_isostasy.py
@@ -139,8 +139,12 @@ def isostatic_moho_airy(
     layers_equivalent_topography = 0
     if layers is not None:
         for thickness, density in layers.values():
-            layers_equivalent_topography += thickness * density
-        layers_equivalent_topography /= density_crust
+            # Avoid in-place operations: they fail when the layers have
+            # different data types or shapes
+            layers_equivalent_topography = (
+                layers_equivalent_topography + thickness * density
+            )
+        layers_equivalent_topography = layers_equivalent_topography / density_crust
 
     # Calculate rock equivalent topography
     rock_equivalent_topography = basement + layers_equivalent_topography
-- 
2.43.0


From a05f664eb0ba706bdc62fb397134a96a79b72e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 04/19] fix: broadcast the coordinates before passing them to
 the compiled forward models

Coordinates with different shapes that can be broadcast together made the
compiled functions read outside of the bounds of the smaller arrays.
---
 src/harmonica/_forward/dipole.py            | 4 +++-
 src/harmonica/_forward/point.py             | 4 +++-
 src/harmonica/_forward/prisms/gravity.py    | 4 +++-
 src/harmonica/_forward/prisms/layer.py      | 4 +++-
 src/harmonica/_forward/prisms/magnetic.py   | 4 +++-
 src/harmonica/_forward/tesseroid_gravity.py | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/harmonica/_forward/dipole.py b/src/harmonica/_forward/dipole.py
index 8925450..6601d61 100644
--- a/src/harmonica/_forward/dipole.py
+++ b/src/harmonica/_forward/dipole.py
@@ -105,7 +105,9 @@ def dipole_magnetic(
     # Figure out the shape and size of the output array(s)
     cast = np.broadcast(*coordinates[:3])
     # Convert coordinates, dipoles and magnetic moments to arrays
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     dipoles = tuple(np.atleast_1d(i).ravel() for i in dipoles[:3])
     magnetic_moments = tuple(np.atleast_1d(m).ravel() for m in magnetic_moments)
     # Sanity checks
diff --git a/src/harmonica/_forward/point.py b/src/harmonica/_forward/point.py
index 619e11b..54b8d11 100644
--- a/src/harmonica/_forward/point.py
+++ b/src/harmonica/_forward/point.py
@@ -235,7 +235,9 @@ def point_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Prepare arrays to be passed to the jitted functions
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     points = tuple(np.atleast_1d(i).ravel() for i in points[:3])
     masses = np.atleast_1d(masses).ravel()
     # Sanity checks
diff --git a/src/harmonica/_forward/prisms/gravity.py b/src/harmonica/_forward/prisms/gravity.py
index ee64393..7efb54e 100644
--- a/src/harmonica/_forward/prisms/gravity.py
+++ b/src/harmonica/_forward/prisms/gravity.py
@@ -200,7 +200,9 @@ def prism_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Convert coordinates, prisms and density to arrays with proper shape
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     prisms = np.atleast_2d(prisms)
     density = np.atleast_1d(density).ravel()
     # Sanity checks
diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 62ad43b..0aca3a3 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -383,7 +383,9 @@ class DatasetAccessorPrismLayer:
 
         # Ravel coordinates to 1D
         cast = np.broadcast(*coordinates[:3])
-        coordinates = tuple(np.atleast_1d(c).ravel() for c in coordinates[:3])
+        coordinates = tuple(
+            np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+        )
 
         # Determine parallel or serial forward modelling function
         numba_function = (
diff --git a/src/harmonica/_forward/prisms/magnetic.py b/src/harmonica/_forward/prisms/magnetic.py
index 43fc5e3..5aa51a5 100644
--- a/src/harmonica/_forward/prisms/magnetic.py
+++ b/src/harmonica/_forward/prisms/magnetic.py
@@ -108,7 +108,9 @@ def prism_magnetic(
     # Figure out the shape and size of the output array(s)
     cast = np.broadcast(*coordinates[:3])
     # Convert coordinates, prisms and magnetization to arrays with proper shape
-    coordinates = tuple(np.atleast_1d(c).ravel() for c in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+    )
     prisms = np.atleast_2d(prisms)
     magnetization = tuple(np.atleast_1d(m).ravel() for m in magnetization)
     # Sanity checks
diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index 66acebb..ea73857 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -167,7 +167,9 @@ def tesseroid_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Convert coordinates, tesseroids and density to arrays
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     tesseroids = np.atleast_2d(tesseroids)
     # Sanity checks for tesseroids and computation points
     if not disable_checks:
-- 
2.43.0


From f70b37226e5cf2724d8ee3f39c0ed62c18243d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 05/19] fix: check the size of every component of the sources
 of the forward models

Only the first component was checked: a mismatch in any other made the
compiled functions read outside of the bounds of the arrays.
---
 src/harmonica/_forward/dipole.py          | 13 +++++++------
 src/harmonica/_forward/point.py           | 11 ++++++-----
 src/harmonica/_forward/prisms/magnetic.py | 11 ++++++-----
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/harmonica/_forward/dipole.py b/src/harmonica/_forward/dipole.py
index 6601d61..bc34c77 100644
--- a/src/harmonica/_forward/dipole.py
+++ b/src/harmonica/_forward/dipole.py
@@ -283,12 +283,13 @@ def _check_dipoles_and_magnetic_moments(dipoles, magnetic_moments):
             " Magnetic moments vectors should have 3 components."
         )
         raise ValueError(msg)
-    if magnetic_moments[0].size != dipoles[0].size:
-        msg = (
-            f"Number of elements in magnetic_moments ({magnetic_moments[0].size})"
-            f" mismatch the number of dipoles ({dipoles[0].size})."
-        )
-        raise ValueError(msg)
+    for component in (*magnetic_moments, *dipoles):
+        if component.size != dipoles[0].size:
+            msg = (
+                f"Number of elements in magnetic_moments or dipoles ({component.size})"
+                f" mismatch the number of dipoles ({dipoles[0].size})."
+            )
+            raise ValueError(msg)
 
 
 def _jit_dipole_magnetic_field_cartesian(
diff --git a/src/harmonica/_forward/point.py b/src/harmonica/_forward/point.py
index 54b8d11..718aec5 100644
--- a/src/harmonica/_forward/point.py
+++ b/src/harmonica/_forward/point.py
@@ -241,11 +241,12 @@ def point_gravity(
     points = tuple(np.atleast_1d(i).ravel() for i in points[:3])
     masses = np.atleast_1d(masses).ravel()
     # Sanity checks
-    if masses.size != points[0].size:
-        raise ValueError(
-            f"Number of elements in masses ({masses.size}) "
-            + f"mismatch the number of points ({points[0].size})"
-        )
+    for point_coordinate in points:
+        if masses.size != point_coordinate.size:
+            raise ValueError(
+                f"Number of elements in masses ({masses.size}) "
+                + f"mismatch the number of points ({point_coordinate.size})"
+            )
     # Compute gravitational field
     kernel = get_kernel(coordinate_system, field)
     dispatcher(coordinate_system, parallel)(
diff --git a/src/harmonica/_forward/prisms/magnetic.py b/src/harmonica/_forward/prisms/magnetic.py
index 5aa51a5..23c49ae 100644
--- a/src/harmonica/_forward/prisms/magnetic.py
+++ b/src/harmonica/_forward/prisms/magnetic.py
@@ -451,11 +451,12 @@ def _run_sanity_checks(prisms, magnetization):
             f"Invalid magnetization vectors with '{size}' elements. "
             + "Magnetization vectors should have only 3 elements."
         )
-    if magnetization[0].size != prisms.shape[0]:
-        raise ValueError(
-            f"Number of magnetization vectors ({magnetization[0].size}) "
-            + f"mismatch the number of prisms ({prisms.shape[0]})"
-        )
+    for component in magnetization:
+        if component.size != prisms.shape[0]:
+            raise ValueError(
+                f"Number of magnetization vectors ({component.size}) "
+                + f"mismatch the number of prisms ({prisms.shape[0]})"
+            )
     check_prisms(prisms)
 
 
-- 
2.43.0


From 8fc43ac81cfb174f5d88ceab2cb37ab9962600e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 06/19] fix: support decreasing coordinates in layers of prisms
 and tesseroids

The spacing was negative, so the boundaries of the sources were swapped.
---
 src/harmonica/_forward/prisms/layer.py    | 7 ++++---
 src/harmonica/_forward/tesseroid_layer.py | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 0aca3a3..301053d 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -196,7 +196,7 @@ class DatasetAccessorPrismLayer:
         """
         easting, northing = self._obj.easting.values, self._obj.northing.values
         _check_regular_grid(easting, northing)
-        s_north, s_east = northing[1] - northing[0], easting[1] - easting[0]
+        s_north, s_east = abs(northing[1] - northing[0]), abs(easting[1] - easting[0])
         return s_north, s_east
 
     @property
@@ -583,8 +583,9 @@ def _forward_gravity_prism_layer(
     """
     easting, northing, upward = coordinates
     n_coords = easting.size
-    half_spacing_east = (prisms_easting[1] - prisms_easting[0]) / 2
-    half_spacing_north = (prisms_northing[1] - prisms_northing[0]) / 2
+    # Use absolute values to support layers with decreasing coordinates
+    half_spacing_east = abs(prisms_easting[1] - prisms_easting[0]) / 2
+    half_spacing_north = abs(prisms_northing[1] - prisms_northing[0]) / 2
 
     # Check if we need to update the progressbar on each iteration
     update_progressbar = progress_proxy is not None
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 5aefea7..3310229 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -171,7 +171,7 @@ def _check_overlap(longitude):
     """
     Check if the prisms boundaries are overlapped.
     """
-    spacing = longitude[1] - longitude[0]
+    spacing = abs(longitude[1] - longitude[0])
     if longitude.max() - longitude.min() >= 360 - spacing:
         msg = (
             "Found invalid longitude coordinates that would create overlapping "
@@ -223,7 +223,8 @@ class DatasetAccessorTesseroidLayer:
         """
         latitude, longitude = self._obj.latitude.values, self._obj.longitude.values
         _check_regular_grid(longitude, latitude)
-        s_latitude, s_longitude = latitude[1] - latitude[0], longitude[1] - longitude[0]
+        s_latitude = abs(latitude[1] - latitude[0])
+        s_longitude = abs(longitude[1] - longitude[0])
         return s_latitude, s_longitude
 
     @property
-- 
2.43.0


From 9dbea8aa4777726aa245cdf030af6999662064ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 07/19] fix: don't truncate the surface or reference of a layer
 to integers

When one of them was an integer array, the values of the other were truncated
wherever the surface lies below the reference.
---
 src/harmonica/_forward/prisms/layer.py    | 7 +++----
 src/harmonica/_forward/tesseroid_layer.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 301053d..c89a4f7 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -303,11 +303,10 @@ class DatasetAccessorPrismLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
+        # Use np.where so the type of top and bottom can hold the values of both arrays
         reverse = surface < reference
-        top[reverse] = reference[reverse]
-        bottom[reverse] = surface[reverse]
+        top = np.where(reverse, reference, surface)
+        bottom = np.where(reverse, surface, reference)
         self._obj.coords["top"] = (self.dims, top)
         self._obj.coords["bottom"] = (self.dims, bottom)
 
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 3310229..9a6bce3 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -312,11 +312,10 @@ class DatasetAccessorTesseroidLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
+        # Use np.where so the type of top and bottom can hold the values of both arrays
         reverse = surface < reference
-        top[reverse] = reference[reverse]
-        bottom[reverse] = surface[reverse]
+        top = np.where(reverse, reference, surface)
+        bottom = np.where(reverse, surface, reference)
         self._obj.coords["top"] = (self.dims, top)
         self._obj.coords["bottom"] = (self.dims, bottom)
 
-- 
2.43.0


From 865b2717d76c49bec114cba5f6d61c2b363e2538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 08/19] fix: make layers of prisms and tesseroids independent
 of the order of their dims

A transposed layer was read with its rows and columns swapped.
---
 src/harmonica/_forward/prisms/layer.py    | 22 +++++++++++++---------
 src/harmonica/_forward/tesseroid_layer.py | 19 +++++++++++--------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index c89a4f7..46813d6 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -397,7 +397,8 @@ class DatasetAccessorPrismLayer:
         thickness_threshold = (
             0.0 if thickness_threshold is None else thickness_threshold
         )
-        density = self._obj[density_name].values
+        layer = self._obj.transpose(*self.dims, ...)
+        density = layer[density_name].values
         if np.isnan(density).any():
             msg = (
                 "Found NaN values in 'density' property of the prisms layer. "
@@ -413,8 +414,8 @@ class DatasetAccessorPrismLayer:
                 coordinates,
                 self._obj.easting.values,
                 self._obj.northing.values,
-                self._obj.bottom.values,
-                self._obj.top.values,
+                layer.bottom.values,
+                layer.top.values,
                 density,
                 FIELDS[field],
                 result,
@@ -451,8 +452,9 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             easting.ravel(), northing.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        layer = self._obj.transpose(*self.dims, ...)
+        bottom = layer.bottom.values.ravel()
+        top = layer.top.values.ravel()
         prisms = np.vstack((west, east, south, north, bottom, top)).T
         return prisms
 
@@ -479,8 +481,9 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             center_easting, center_northing
         )
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        layer = self._obj.transpose(*self.dims, ...)
+        bottom = layer.bottom.values[indices]
+        top = layer.top.values[indices]
         return west, east, south, north, bottom, top
 
     def to_pyvista(self, drop_null_prisms=True):
@@ -511,11 +514,12 @@ class DatasetAccessorPrismLayer:
         # Define properties
         properties = None
         if self._obj.data_vars:
+            layer = self._obj.transpose(*self.dims, ...)
             properties = {
-                data_var: np.asarray(self._obj[data_var]).ravel()[
+                data_var: np.asarray(layer[data_var]).ravel()[
                     np.logical_not(null_prisms)
                 ]
-                for data_var in self._obj.data_vars
+                for data_var in layer.data_vars
             }
         return prism_to_pyvista(prisms, properties=properties)
 
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 9a6bce3..793dd20 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -379,7 +379,7 @@ class DatasetAccessorTesseroidLayer:
         """
         # Get boundaries and density of the tesseroids
         boundaries = self._to_tesseroids()
-        density = self._obj[density_name].values
+        density = self._obj.transpose(*self.dims, ...)[density_name].values
         # Get the mask for selecting  only the tesseroid whose top boundary,
         # bottom boundary and density have no nans
         mask = self._get_nonans_mask(property_name=density_name)
@@ -421,14 +421,15 @@ class DatasetAccessorTesseroidLayer:
             with no nans on top boundaries, bottom boundaries ans the passed
             property.
         """
+        layer = self._obj.transpose(*self.dims, ...)
         # Mask the tesseroid that contains no nans on top and bottom boundaries
         mask = np.logical_and(
-            np.logical_not(np.isnan(self._obj.top.values)),
-            np.logical_not(np.isnan(self._obj.bottom.values)),
+            np.logical_not(np.isnan(layer.top.values)),
+            np.logical_not(np.isnan(layer.bottom.values)),
         )
         # Mask the tesseroids that contains nans on the selected property
         if property_name is not None:
-            mask_property = np.logical_not(np.isnan(self._obj[property_name].values))
+            mask_property = np.logical_not(np.isnan(layer[property_name].values))
             # Warn if a nan is found within the masked property
             if not mask_property[mask].all():
                 warnings.warn(
@@ -463,8 +464,9 @@ class DatasetAccessorTesseroidLayer:
         ) = self._get_tesseroid_horizontal_boundaries(
             longitude.ravel(), latitude.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        layer = self._obj.transpose(*self.dims, ...)
+        bottom = layer.bottom.values.ravel()
+        top = layer.top.values.ravel()
         tesseroids = np.vstack(
             (longitude_w, longitude_e, latitude_s, latitude_n, bottom, top)
         ).T
@@ -515,8 +517,9 @@ class DatasetAccessorTesseroidLayer:
             latitude_s,
             latitude_n,
         ) = self._get_tesseroid_horizontal_boundaries(center_longitude, center_latitude)
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        layer = self._obj.transpose(*self.dims, ...)
+        bottom = layer.bottom.values[indices]
+        top = layer.top.values[indices]
         return longitude_w, longitude_e, latitude_s, latitude_n, bottom, top
 
 
-- 
2.43.0


From 28b7b7bbbf82e452fb1e451cb0ad23f9d052388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 09/19] fix: ignore tesseroids with zero volume when the
 density is a function

They raised an unrelated error, while they are ignored for constant densities.
---
 src/harmonica/_forward/_tesseroid_variable_density.py | 2 +-
 src/harmonica/_forward/tesseroid_gravity.py           | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/_tesseroid_variable_density.py b/src/harmonica/_forward/_tesseroid_variable_density.py
index e91844e..4f0546b 100644
--- a/src/harmonica/_forward/_tesseroid_variable_density.py
+++ b/src/harmonica/_forward/_tesseroid_variable_density.py
@@ -142,7 +142,7 @@ def density_based_discretization(tesseroids, density):
     discretized_tesseroids = []
     for tesseroid in tesseroids:
         discretized_tesseroids.extend(_density_based_discretization(tesseroid, density))
-    return np.atleast_2d(discretized_tesseroids)
+    return np.array(discretized_tesseroids, dtype=np.float64).reshape((-1, 6))
 
 
 def _density_based_discretization(tesseroid, density):
diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index ea73857..15256b6 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -177,6 +177,10 @@ def tesseroid_gravity(
         check_points_outside_tesseroids(coordinates, tesseroids)
     # Check if density is a function or constant values
     if callable(density):
+        # Discard null tesseroids (zero volume)
+        tesseroids, _ = _discard_null_tesseroids(
+            tesseroids, np.ones(tesseroids.shape[0])
+        )
         # Run density-based discretization on each tesseroid
         tesseroids = density_based_discretization(tesseroids, density)
     else:
-- 
2.43.0


From 8253c019b2f0d8e3386a0f6e7b7ed5117e2a7232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 10/19] fix: don't change fitted attributes when estimating
 memory of equivalent sources

Also use the sources given by the user when there are any. Estimating on a fitted
EquivalentSourcesGB replaced its sources but not its coefficients.
---
 src/harmonica/_equivalent_sources/cartesian.py       |  8 ++++++--
 .../_equivalent_sources/gradient_boosted.py          | 12 ++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/cartesian.py b/src/harmonica/_equivalent_sources/cartesian.py
index 1340f7b..62e3a96 100644
--- a/src/harmonica/_equivalent_sources/cartesian.py
+++ b/src/harmonica/_equivalent_sources/cartesian.py
@@ -17,6 +17,7 @@ import numpy as np
 import verde as vd
 import verde.base as vdb
 from numba import jit
+from sklearn.base import clone
 from sklearn.utils.validation import check_is_fitted
 
 from .._forward.utils import distance_cartesian
@@ -222,9 +223,12 @@ class EquivalentSources(vdb.BaseGridder):
         >>> int(n_bytes)
         80000
         """
-        # Build the sources and assign the points_ attribute
+        # Build the sources on a clone to leave the attributes of self untouched
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
+        if self.points is None:
+            points = clone(self)._build_points(coordinates)
+        else:
+            points = vdb.n_1d_arrays(self.points, 3)
         # Get the number of sources and data
         n_data = coordinates[0].size
         n_points = points[0].size
diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index ab522e3..2cc4130 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -16,6 +16,7 @@ import bordado as bd
 import numpy as np
 import verde.base as vdb
 from sklearn import utils
+from sklearn.base import clone
 
 from .cartesian import EquivalentSources
 from .utils import cast_fit_input, predict_numba_parallel
@@ -171,12 +172,15 @@ class EquivalentSourcesGB(EquivalentSources):
         >>> int(n_bytes)
         10952
         """
-        # Build the sources and assign the points_ attribute
+        # Build the sources on a clone to leave the attributes of self untouched
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
-        self.points_ = points
+        estimator = clone(self)
+        if self.points is None:
+            estimator.points_ = estimator._build_points(coordinates)
+        else:
+            estimator.points_ = vdb.n_1d_arrays(self.points, 3)
         # Build the windows and get the indices
-        source_windows, data_windows = self._create_windows(coordinates)
+        source_windows, data_windows = estimator._create_windows(coordinates)
         # Get the number of sources and data for each window
         source_sizes = np.array([w.size for w in source_windows])
         data_sizes = np.array([w.size for w in data_windows])
-- 
2.43.0


From fb110fd6e585afa6cea3be84cbe1cad289b6ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 11/19] fix: predict equivalent sources on coordinates of any
 shape and type

Coordinates of different shapes made the compiled functions read out of bounds,
and integer ones truncated the predictions of EquivalentSourcesSph.
---
 src/harmonica/_equivalent_sources/cartesian.py | 3 ++-
 src/harmonica/_equivalent_sources/spherical.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/cartesian.py b/src/harmonica/_equivalent_sources/cartesian.py
index 62e3a96..07580e6 100644
--- a/src/harmonica/_equivalent_sources/cartesian.py
+++ b/src/harmonica/_equivalent_sources/cartesian.py
@@ -379,7 +379,8 @@ class EquivalentSources(vdb.BaseGridder):
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
         coordinates = tuple(
-            np.atleast_1d(i.astype(self.dtype)).ravel() for i in coordinates[:3]
+            np.atleast_1d(i.astype(self.dtype)).ravel()
+            for i in np.broadcast_arrays(*coordinates[:3])
         )
         data = np.zeros(size, dtype=self.dtype)
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index 606311b..f5c20fa 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -240,9 +240,10 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         check_is_fitted(self, ["coefs_"])
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
-        dtype = coordinates[0].dtype
-        coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
-        data = np.zeros(size, dtype=dtype)
+        coordinates = tuple(
+            np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+        )
+        data = np.zeros(size, dtype="float64")
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
         kernel(coordinates, self.points_, self.coefs_, data, self.greens_function)
         return data.reshape(shape)
-- 
2.43.0


From a82ce0eeb150f2fcc87c828fc58130a6be38b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 12/19] fix: estimate memory of EquivalentSourcesSph with the
 type of its Jacobian

---
 src/harmonica/_equivalent_sources/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index f5c20fa..42058b4 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -171,7 +171,7 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         # Compute the size of the Jacobian matrix
         jacobian_size = n_data * n_points
         # Estimate size of a single element of the Jacobian matrix in bytes
-        return jacobian_size * np.dtype(coordinates[0].dtype).itemsize
+        return jacobian_size * np.dtype("float64").itemsize
 
     def fit(self, coordinates, data, weights=None):
         """
-- 
2.43.0


From 4f29977556efd5e9e4d08d4e060ec9103f9f1efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 13/19] fix: don't predict in parallel when EquivalentSourcesGB
 has parallel set to False

---
 src/harmonica/_equivalent_sources/gradient_boosted.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index 2cc4130..af9bdae 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -19,7 +19,7 @@ from sklearn import utils
 from sklearn.base import clone
 
 from .cartesian import EquivalentSources
-from .utils import cast_fit_input, predict_numba_parallel
+from .utils import cast_fit_input, predict_numba_parallel, predict_numba_serial
 
 
 class EquivalentSourcesGB(EquivalentSources):
@@ -260,6 +260,10 @@ class EquivalentSourcesGB(EquivalentSources):
         # Initialized the predicted and residue arrays
         predicted = np.empty_like(data)
         residue = data.copy()
+        # Choose the function for predicting
+        predict_kernel = (
+            predict_numba_parallel if self.parallel else predict_numba_serial
+        )
         # Iterate over the windows
         for window in range(n_windows):
             # Get source and data points indices for current window
@@ -281,7 +285,7 @@ class EquivalentSourcesGB(EquivalentSources):
             )
             # Predict field of the sources in the window on every data point
             predicted[:] = 0
-            predict_numba_parallel(
+            predict_kernel(
                 coordinates,
                 points_chunk,
                 coeffs_chunk,
-- 
2.43.0


From 43cdfd06f11b75b78a1904e92ee55c5a568d4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 14/19] fix: raise an informative error for unsupported sign
 flags in Oasis montaj grids

---
 src/harmonica/_io/oasis_montaj_grd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/harmonica/_io/oasis_montaj_grd.py b/src/harmonica/_io/oasis_montaj_grd.py
index 3570874..66019b5 100644
--- a/src/harmonica/_io/oasis_montaj_grd.py
+++ b/src/harmonica/_io/oasis_montaj_grd.py
@@ -262,6 +262,7 @@ def _get_data_type(n_bytes_per_element, sign_flag):
     if n_bytes_per_element > 1024:
         n_bytes_per_element -= 1024
     # Determine the data type of the grid elements
+    data_type = None
     if n_bytes_per_element == 1:
         if sign_flag == 0:  # pragma: no cover
             data_type = "B"  # unsigned char
@@ -281,6 +282,11 @@ def _get_data_type(n_bytes_per_element, sign_flag):
             data_type = "f"  # float
     elif n_bytes_per_element == 8:  # pragma: no cover
         data_type = "d"
+    if data_type is None:
+        raise NotImplementedError(
+            f"Found a 'sign flag' (a.k.a. 'SF') value of '{sign_flag}' that is not "
+            + f"supported for grid elements of {n_bytes_per_element} bytes."
+        )
     return data_type
 
 
-- 
2.43.0


From e15920cb7dce27fdd784e56b41e62ec6060c1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 15/19] fix: don't write out of bounds in Legendre functions
 with a maximum degree of zero

---
 .../_spherical_harmonics/legendre.py          | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/harmonica/_spherical_harmonics/legendre.py b/src/harmonica/_spherical_harmonics/legendre.py
index d93c339..8ab235e 100644
--- a/src/harmonica/_spherical_harmonics/legendre.py
+++ b/src/harmonica/_spherical_harmonics/legendre.py
@@ -166,9 +166,10 @@ def associated_legendre_schmidt(x, max_degree, p):
     # Use the Holmes and Featherstone (2002) scaling to compute scaled Pnm
     # All terms are scaled by the max float range 1e280
     p[0, 0] = 1 * 1e-280
-    p[1, 0] = x * 1e-280
-    # This equation doesn't have u because of the scaling
-    p[1, 1] = p[0, 0]
+    if max_degree > 0:
+        p[1, 0] = x * 1e-280
+        # This equation doesn't have u because of the scaling
+        p[1, 1] = p[0, 0]
     # Calculate the zero order terms first
     for n in range(2, max_degree + 1):
         a_n0 = (2 * n - 1) / (sqrt[n] ** 2)
@@ -235,8 +236,9 @@ def associated_legendre_schmidt_derivative(max_degree, p, dp):
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
     dp[0, 0] = 0
-    dp[1, 0] = -p[1, 1]
-    dp[1, 1] = p[1, 0]
+    if max_degree > 0:
+        dp[1, 0] = -p[1, 1]
+        dp[1, 1] = p[1, 0]
     for n in range(2, max_degree + 1):
         a_nm = -sqrt[n] * sqrt[n + 1] / sqrt[2]
         dp[n, 0] = a_nm * p[n, 1]
@@ -291,9 +293,10 @@ def associated_legendre_full(x, max_degree, p):
     # Use the Holmes and Featherstone (2002) scaling to compute scaled Pnm
     # All terms are scaled by the max float range 1e280
     p[0, 0] = 1 * 1e-280
-    p[1, 0] = x * sqrt[3] * 1e-280
-    # This equation doesn't have u because of the scaling
-    p[1, 1] = p[0, 0] * sqrt[3]
+    if max_degree > 0:
+        p[1, 0] = x * sqrt[3] * 1e-280
+        # This equation doesn't have u because of the scaling
+        p[1, 1] = p[0, 0] * sqrt[3]
     # Calculate the zero order terms first
     for n in range(2, max_degree + 1):
         a_n0 = sqrt[2 * n - 1] * sqrt[2 * n + 1] / n
@@ -362,8 +365,9 @@ def associated_legendre_full_derivative(max_degree, p, dp):
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
     dp[0, 0] = 0
-    dp[1, 0] = -p[1, 1]
-    dp[1, 1] = p[1, 0]
+    if max_degree > 0:
+        dp[1, 0] = -p[1, 1]
+        dp[1, 1] = p[1, 0]
     for n in range(2, max_degree + 1):
         a_nm = -sqrt[n] * sqrt[n + 1] / sqrt[2]
         dp[n, 0] = a_nm * p[n, 1]
-- 
2.43.0


From b4669c1c073f34e0c1b27c56c3203ac319b911b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 16/19] fix: predict the IGRF on coordinates of different
 shapes and degree zero without reading out of bounds

---
 src/harmonica/_spherical_harmonics/igrf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 42b1331..d0ccb11 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -350,7 +350,9 @@ class IGRF14:
             shape as the coordinate arrays. All are in nT.
         """
         cast = np.broadcast(*coordinates[:3])
-        longitude, latitude, height = (np.atleast_1d(c).ravel() for c in coordinates)
+        longitude, latitude, height = (
+            np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+        )
         longitude, latitude_sph, radius = self.ellipsoid.geodetic_to_spherical(
             (longitude, latitude, height)
         )
@@ -594,8 +596,9 @@ def spherical_harmonics_magnetic_field(
         sin_mlon = np.empty(max_degree + 1)
         cos_mlon[0] = 1
         sin_mlon[0] = 0
-        cos_mlon[1] = np.cos(longitude[i])
-        sin_mlon[1] = np.sin(longitude[i])
+        if max_degree > 0:
+            cos_mlon[1] = np.cos(longitude[i])
+            sin_mlon[1] = np.sin(longitude[i])
         for m in range(2, max_degree + 1):
             cos_mlon[m] = 2 * cos_mlon[1] * cos_mlon[m - 1] - cos_mlon[m - 2]
             sin_mlon[m] = 2 * cos_mlon[1] * sin_mlon[m - 1] - sin_mlon[m - 2]
@@ -656,8 +659,9 @@ def spherical_harmonics_magnetic_field_grid(
     for j in numba.prange(n_lon):
         cos_mlon[j, 0] = 1
         sin_mlon[j, 0] = 0
-        cos_mlon[j, 1] = np.cos(longitude[j])
-        sin_mlon[j, 1] = np.sin(longitude[j])
+        if max_degree > 0:
+            cos_mlon[j, 1] = np.cos(longitude[j])
+            sin_mlon[j, 1] = np.sin(longitude[j])
         for m in range(2, max_degree + 1):
             cos_mlon[j, m] = (
                 2 * cos_mlon[j, 1] * cos_mlon[j, m - 1] - cos_mlon[j, m - 2]
-- 
2.43.0


From a0f1edd716d3d2428a81201f2838226db2713721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 17/19] fix: predict the IGRF on coordinate arrays with a
 single element

---
 src/harmonica/_spherical_harmonics/igrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index d0ccb11..de4d310 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -382,7 +382,7 @@ class IGRF14:
                 latitude, latitude_sph, (b_east, b_north_sph, b_radial)
             )
         )
-        if n_data == 1:
+        if cast.shape == ():
             b_vector = tuple(float(c) for c in b_vector)
         return b_vector
 
-- 
2.43.0


From 58e04464a1564d23c1067c93d80c663db770ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 18/19] fix: EulerInversion without iterations failed with
 UnboundLocalError

---
 src/harmonica/_euler_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/harmonica/_euler_methods.py b/src/harmonica/_euler_methods.py
index 93c0d0e..38886fa 100644
--- a/src/harmonica/_euler_methods.py
+++ b/src/harmonica/_euler_methods.py
@@ -405,6 +405,8 @@ class EulerInversion:
         euler_misfit = np.linalg.norm(euler)
         data_misfit = np.linalg.norm(residuals * data_weights)
         merit = data_misfit + self.euler_misfit_balance * euler_misfit
+        # The covariance is undefined if no iterations are performed
+        cofactor = np.full((parameters.size, parameters.size), np.nan)
         for _ in range(self.max_iterations):
             parameter_step, data_step, cofactor = self._newton_step(
                 coordinates,
-- 
2.43.0


From 86c8368a22dc65de6fc81e68d3297f5d13d63997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 19/19] fix: apply the susceptibility tensor to the
 demagnetizing field

The magnetization of an ellipsoid solves M = chi (H0 - N M) + Mr, as the
docstring states, so the matrix of the system is I + chi N. It was built as
I + N chi, which is the same only if the susceptibility is isotropic.
---
 src/harmonica/_forward/ellipsoids/magnetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/ellipsoids/magnetic.py b/src/harmonica/_forward/ellipsoids/magnetic.py
index 9096ee9..721ead2 100644
--- a/src/harmonica/_forward/ellipsoids/magnetic.py
+++ b/src/harmonica/_forward/ellipsoids/magnetic.py
@@ -285,7 +285,7 @@ def get_magnetisation(
     if n_tensor is None:
         n_tensor = get_demagnetization_tensor_internal(a, b, c)
     eye = np.identity(3)
-    lhs = eye + n_tensor @ susceptibility
+    lhs = eye + susceptibility @ n_tensor
     rhs = remnant_mag + susceptibility @ h0_field
     m = np.linalg.solve(lhs, rhs)
     return m
-- 
2.43.0

